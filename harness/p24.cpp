// P24: renders match closed-form results, repeat with the same seed, overwrite the film and hold finite values.
#include "tscene.h"
#include <thread>
using namespace lmgen;

namespace {
using V = std::vector<double>;
pbt::Rand g_seed(1);

// Scene in camera coordinates (camera at the origin, looking along -z), moved by one rigid transform R.
struct View {
    Mat4 R; double tf, asp; int w, h;
    Vec3 at(Vec3 p) const { return xform_point(R, p); }
    Vec3 dir(Vec3 d) const { return xform_point(R, d) - xform_point(R, Vec3(0)); }
    Vec3 local(double rx, double ry) const { return unit(Vec3(asp * tf * (2 * rx - 1), tf * (2 * ry - 1), -1)); }
};
struct Model {
    View v; std::string loc, desc; Scene* s; Film* film; int mv = 2;
    std::function<Vec3(Vec3)> radiance;         // of a direction in camera coordinates
    std::function<int(int, int)> defined;       // is the closed form valid for the pixel?
    std::vector<std::string> exact, upper, noisy;      // estimators with / without variance
    Vec3 no_direct = Vec3(0);                   // part missing from light tracing
    bool kinks = false; double rel = .004;
    V expect;
};

View gen_view(Ctx& c, double max_tf) {
    View v; v.R = mat_mul(m_translate(gen_vec(c, 3)), m_rotate(c.nice(-3.2, 3.2), gen_dir(c)));
    v.tf = c.real(.1, max_tf); v.asp = c.coin() ? 1 : c.logreal(.5, 2);
    v.w = c.in(1, 5); v.h = c.in(1, 5);
    return v;
}
void start(Ctx& c, Model& m, double max_tf) {
    lm::reset(); m.v = gen_view(c, max_tf);
    asset("acc", "accel::sahbvh", {}); m.loc = asset("scene", "scene::default", { {"accel", "$.assets.acc"} }); m.s = get<Scene>(m.loc);
    asset("film", "film::bitmap", { {"w", m.v.w}, {"h", m.v.h} }); m.film = get<Film>("$.assets.film");
    const double vfov = std::atan(m.v.tf) * 360 / 3.14159265358979323846;
    m.s->add_child(0, m.s->create_primitive_node({ {"camera", asset("camera", "camera::pinhole", { {"position", J(m.v.at(Vec3(0)))}, {"center", J(m.v.at(Vec3(0, 0, -c.logreal(.1, 10))))}, {"up", J(m.v.dir(Vec3(0, 1, 0)))}, {"vfov", vfov}, {"aspect", m.v.asp} })} }));
}
int g_n = 0;
// The generators of the renderers are per thread: a fresh thread makes them depend on the seed only
void fresh(const std::function<void()>& f) { std::exception_ptr ex; std::thread([&] { try { f(); } catch (...) { ex = std::current_exception(); } }).join(); if (ex) std::rethrow_exception(ex); }
void add(Ctx& c, Model& m, const MeshSpec& ms, const std::string& mat, Mat4 M, const Vec3* Ke = nullptr) {
    const std::string n = std::to_string(g_n++ % 50);
    const auto mesh = asset("mesh" + n, "mesh::raw", ms.json());
    Json p = { {"mesh", mesh}, {"material", mat} };
    if (Ke) p["light"] = asset("light" + n, "light::area", { {"Ke", J(*Ke)}, {"mesh", mesh} });
    const int q = m.s->create_primitive_node(p);
    M = mat_mul(m.v.R, M);
    if (c.coin()) { const int g = m.s->create_group_node(M); m.s->add_child(g, q); m.s->add_child(0, g); }
    else { const int g = m.s->create_group_node(M), i = m.s->create_instance_group_node(); m.s->add_child(i, q); m.s->add_child(g, i); m.s->add_child(0, g); }
}
void add_light(Model& m, const std::string& key, const Json& p) { m.s->add_child(0, m.s->create_primitive_node({ {"light", asset("dlight", key, p)} })); }

MeshSpec flip(MeshSpec m) { for (size_t i = 0; i + 2 < m.fs.size(); i += 3) std::swap(m.fs[i + 1], m.fs[i + 2]); for (auto& n : m.ns) n = -n; return m; }
MeshSpec sphere(int sub) {
    const double t = (1 + std::sqrt(5.)) / 2; std::vector<Vec3> v = { {-1,t,0},{1,t,0},{-1,-t,0},{1,-t,0},{0,-1,t},{0,1,t},{0,-1,-t},{0,1,-t},{t,0,-1},{t,0,1},{-t,0,-1},{-t,0,1} };
    std::vector<std::array<int, 3>> f = { {0,11,5},{0,5,1},{0,1,7},{0,7,10},{0,10,11},{1,5,9},{5,11,4},{11,10,2},{10,7,6},{7,1,8},{3,9,4},{3,4,2},{3,2,6},{3,6,8},{3,8,9},{4,9,5},{2,4,11},{6,2,10},{8,6,7},{9,8,1} };
    for (auto& p : v) p = unit(p);
    for (int s = 0; s < sub; s++) { std::vector<std::array<int, 3>> g; for (auto& q : f) { int k[3]; for (int i = 0; i < 3; i++) { v.push_back(unit((v[q[i]] + v[q[(i + 1) % 3]]) * .5)); k[i] = int(v.size()) - 1; } g.push_back({ q[0], k[0], k[2] }); g.push_back({ q[1], k[1], k[0] }); g.push_back({ q[2], k[2], k[1] }); g.push_back({ k[0], k[1], k[2] }); } f = g; }
    MeshSpec m; m.ps = v; m.ts = { Vec2(0) };
    for (auto& q : f) { m.ns.push_back(unit(cross_(v[q[1]] - v[q[0]], v[q[2]] - v[q[0]]))); for (int i = 0; i < 3; i++) m.fs.push_back({ q[i], 0, int(m.ns.size()) - 1 }); }
    return m;
}
// Does the ray from the origin hit the closed convex mesh?
bool hits(const MeshSpec& ms, const Mat4& M, Vec3 d) {
    std::vector<FlatTri> ts; for (size_t f = 0; f + 2 < ms.fs.size(); f += 3) { FlatTri t{}; for (int k = 0; k < 3; k++) t.w[k] = xform_point(M, ms.ps[ms.fs[f + k].p]); ts.push_back(t); }
    return !crossings(ts, Ray{ Vec3(0), d }, 1e-9, 1e9).empty();
}
// Diffuse material in one of several disguises
std::string diffuse(Ctx& c, const std::string& n, Vec3 rho) {
    switch (c.in(0, 4)) {
        case 1: asset(n + "_t", "texture::constant", { {"color", J(rho)} }); return asset(n, "material::diffuse", { {"mapKd", "$.assets." + n + "_t"} });
        case 2: asset(n + "_d", "material::diffuse", { {"Kd", J(rho)} }); return asset(n, "material::proxy", { {"ref", "$.assets." + n + "_d"} });
        case 3: case 4: {
            const double w = c.real(.2, .8); asset(n + "_a", "material::diffuse", { {"Kd", J(rho)} }); asset(n + "_b", "material::diffuse", { {"Kd", J(rho)} });
            return asset(n, c.coin() ? "material::constant_weight_mixture_rr" : "material::constant_weight_mixture_marginalized", Json::array({ Json{ {"material", "$.assets." + n + "_a"}, {"weight", w} }, Json{ {"material", "$.assets." + n + "_b"}, {"weight", 1 - w} } }));
        }
        default: return asset(n, "material::diffuse", { {"Kd", J(rho)} });
    }
}
Json params(const std::string& name) {
    const auto has = [&](const char* k) { return name.find(k) != std::string::npos; };
    Json p = Json::object();
    if (name.rfind("pt/", 0) == 0) { p["sampling_mode"] = std::string(has("/mis") ? "mis" : has("/nee") ? "nee" : "naive"); p["primary_ray_sampling_mode"] = std::string(has("/image") ? "image" : "pixel"); }
    return p;
}
std::string rkey(const std::string& name) { return "renderer::" + name.substr(0, name.find('/')); }

void dirty(Ctx& c, Film* f) { const auto [w, h] = f->size(); const int k = c.in(0, 2); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) f->set_pixel(x, y, k == 0 ? Vec3(1e3, 7, .5) : k == 1 ? Vec3(-3) : Vec3(x + 1, y + 1, std::numeric_limits<double>::quiet_NaN())); }

V render(Ctx& c, const Model& m, const std::string& name, int spp, bool timed = false) {
    Json p = params(name); const long long N = (long long)spp * m.v.w * m.v.h;
    p.update({ {"scene", m.loc}, {"output", "$.assets.film"}, {"max_verts", m.mv}, {"scheduler", std::string(timed ? "time" : "sample")}, {"render_time", .002}, {"samples_per_iter", 50}, {"spp", spp}, {"num_samples", N}, {"seed", int(g_seed.u() * (1 << 30))} });
    auto* r = get<Renderer>(asset("r" + std::to_string(g_n++ % 5), rkey(name), p));
    dirty(c, m.film);
    Json out; fresh([&] { out = r->render(); });
    if (!timed && out.contains("processed")) c.check(out["processed"].get<long long>() == spp || out["processed"].get<long long>() == N, "processed", [&] { return name + " reports " + out.dump() + " for " + std::to_string(spp) + " samples per pixel"; });
    const auto b = m.film->buffer(); V v;
    for (int i = 0; i < m.v.w * m.v.h * 3; i++) { const double x = b.data[i]; c.check(std::isfinite(x) && x >= -1e-12, "finite", [&] { return name + ": pixel value " + S(x) + " [" + m.desc + "]"; }); v.push_back(x); }
    return v;
}

// Average of the radiance over every pixel
void integrate(Model& m) {
    static const double gx[5] = { -.9061798459386640, -.5384693101056831, 0, .5384693101056831, .9061798459386640 }, gw[5] = { .2369268850561891, .4786286704993665, .5688888888888889, .4786286704993665, .2369268850561891 };
    m.expect.clear();
    for (int y = 0; y < m.v.h; y++) for (int x = 0; x < m.v.w; x++) {
        Vec3 s(0);
        if (!m.kinks) { const int K = 2; for (int a = 0; a < 5 * K; a++) for (int b = 0; b < 5 * K; b++) { const double px = (a / 5 + .5 + .5 * gx[a % 5]) / K, py = (b / 5 + .5 + .5 * gx[b % 5]) / K; s += m.radiance(m.v.local((x + px) / m.v.w, (y + py) / m.v.h)) * (gw[a % 5] * gw[b % 5] / 4 / K / K); } }
        else { const int K = 48; for (int a = 0; a < K; a++) for (int b = 0; b < K; b++) s += m.radiance(m.v.local((x + (a + .5) / K) / m.v.w, (y + (b + .5) / K) / m.v.h)) / double(K * K); }
        for (int k = 0; k < 3; k++) m.expect.push_back(s[k]);
    }
}

struct Stat { V mean, var; };
void judge(Ctx& c, Model& m) {
    integrate(m);
    const int nt = c.weighted({ 5, 2, 1 }) + 1; lm::parallel::init("openmp", { {"num_threads", nt} });
    m.desc += "; film " + std::to_string(m.v.w) + "x" + std::to_string(m.v.h) + " aspect=" + s6(m.v.asp) + " tan(fov/2)=" + s6(m.v.tf) + " max_verts=" + std::to_string(m.mv) + " threads=" + std::to_string(nt);
    c.note(m.desc);
    const auto ok = [&](int i) { return !m.defined || m.defined(i % m.v.w, i / m.v.w); };
    const auto where = [&](size_t i) { return "pixel (" + std::to_string(i / 3 % m.v.w) + "," + std::to_string(i / 3 / m.v.w) + ") channel " + std::to_string(i % 3); };
    for (auto& e : m.exact) {
        const int spp = c.pick(std::vector<int>{ 1, 2, 3, 7, 20 }); const bool timed = c.chance(.03);
        const V v = render(c, m, e, spp, timed); c.label("exact " + e); if (timed) c.label("timed");
        for (size_t i = 0; i < v.size(); i++) if (ok(int(i / 3))) c.check(near(v[i], m.expect[i], 1e-8, 1e-12), "exact-" + e, [&] { return e + " gives " + S(v[i]) + " for " + where(i) + " with " + std::to_string(spp) + " samples per pixel" + (timed ? " (timed)" : "") + ", exact value " + S(m.expect[i]) + " [" + m.desc + "]"; });
    }
    for (auto& e : m.upper) {
        const V v = render(c, m, e, c.in(1, 20)); c.label("bound " + e);
        for (size_t i = 0; i < v.size(); i++) c.check(v[i] <= m.expect[i] * (1 + 1e-8), "bound-" + e, [&] { return e + " gives " + S(v[i]) + " for " + where(i) + ", bound " + S(m.expect[i]) + " [" + m.desc + "]"; });
    }
    const int px = m.v.w * m.v.h;
    const auto sample = [&](const std::string& e, int B, int n, int parts) {
        std::vector<V> bs; for (int b = 0; b < B; b++) { V v; for (int k = 0; k < parts; k++) { const V q = render(c, m, e, std::max(1, n / parts)); if (v.empty()) v = q; else for (size_t i = 0; i < v.size(); i++) v[i] += q[i]; } for (double& x : v) x /= parts; bs.push_back(v); }
        Stat s; s.mean.assign(bs[0].size(), 0); s.var = s.mean; for (auto& b : bs) for (size_t i = 0; i < b.size(); i++) s.mean[i] += b[i] / B; for (auto& b : bs) for (size_t i = 0; i < b.size(); i++) s.var[i] += (b[i] - s.mean[i]) * (b[i] - s.mean[i]) / (B - 1.) / B;
        return s;
    };
    for (auto& e : m.noisy) {
        c.label("mean " + e);
        const bool lt = e == "lt" || e == "lt_nee_path"; V want = m.expect; if (lt) for (size_t i = 0; i < want.size(); i++) want[i] -= m.no_direct[int(i % 3)];
        const int n1 = std::max(1, (c.tier ? 4000 : 1200) / px), parts = c.chance(.3) ? c.pick(std::vector<int>{ 5, 40 }) : 1;     // many short renders or a long one
        size_t at = size_t(-1); int sg = 0; double d0 = 0; bool bad = true; Stat s;
        for (int stage = 0; stage < 3 && bad; stage++) {
            s = sample(e, stage ? 24 : 12, n1 * (stage == 2 ? 16 : stage == 1 ? 4 : 1), parts); c.evals++;
            double best = 0, db = 0; size_t ab = 0;
            for (size_t i = 0; i < want.size(); i++) {
                if (!ok(int(i / 3)) || (at != size_t(-1) && i != at)) continue;
                const double d = s.mean[i] - want[i], sd = std::sqrt(s.var[i]) + 1e-9 * (1 + want[i]);
                if (std::fabs(d) < m.rel * std::max(want[i], s.mean[i])) continue;
                if (std::fabs(d) / sd > best) { best = std::fabs(d) / sd; db = d; ab = i; }
            }
            // Few large samples can be missing from a small batch: dark estimates get the variance of the expected value
            bad = best > (stage == 0 ? 4.5 : stage == 1 ? 4.5 : 6) && (stage == 0 || ((db > 0) == (sg > 0) && std::fabs(db) > .3 * d0));
            if (stage) c.label("confirm-" + std::to_string(stage));
            at = ab; sg = db > 0 ? 1 : -1; d0 = std::fabs(db);
        }
        if (bad) c.fail("mean-" + e, e + " gives " + s6(s.mean[at]) + " +- " + s6(std::sqrt(s.var[at])) + " for " + where(at) + ", exact value " + s6(want[at]) + " [" + m.desc + "]");
    }
    double top = 0; for (double x : m.expect) top = std::max(top, x); c.nontrivial = top > 0;
}

const std::vector<std::string> PX = { "pt/mis/pixel", "pt/nee/pixel", "pt/naive/pixel", "volpt", "volpt_naive" };
void pick(Ctx& c, std::vector<std::string>& v, size_t n) { while (v.size() > n) v.erase(v.begin() + c.raw(v.size() - 1)); }

// --- closed forms ---------------------------------------------------------------------------------
void env_only(Ctx& c) {
    Model m; start(c, m, 1.5); const Vec3 L = gen_color(c, 0, 5); m.mv = c.pick(std::vector<int>{ 1, 2, 2, 3, 5, 8 });
    add_light(m, "light::envconst", { {"Le", J(L)} });
    add(c, m, box_mesh(Vec3(.3)), diffuse(c, "hidden", gen_color(c)), m_translate(Vec3(0, 0, 3)));      // behind the camera
    m.s->build(); const Vec3 e = m.mv >= 2 ? L : Vec3(0); m.radiance = [=](Vec3) { return e; };
    m.exact = PX; m.noisy = { "pt/mis/image", "pt/nee/image", "pt/naive/image", "pt_naive_path", "bdpt", "bdptopt" }; pick(c, m.noisy, 2);
    m.desc = "constant environment Le=" + s6(L); c.label("env"); judge(c, m);
}
void emitter(Ctx& c) {
    Model m; start(c, m, .5); const Vec3 L = gen_color(c, 0, 5); m.mv = c.in(1, 5); const bool back = c.chance(.25);
    const double D = c.real(2, 5); MeshSpec q = quad_mesh(4 * D, 4 * D); if (back) q = flip(q);
    add(c, m, q, asset("mat", "material::diffuse", { {"Kd", J(gen_color(c))} }), mat_mul(m_translate(Vec3(0, 0, -D)), m_rotate(c.real(-.4, .4), unit(Vec3(c.real(-1, 1), c.real(-1, 1) + 1e-3, 0)))), &L);
    m.s->build(); const Vec3 e = m.mv >= 2 && !back ? L : Vec3(0); m.radiance = [=](Vec3) { return e; };
    m.exact = PX; m.noisy = { "pt/mis/image", "pt/nee/image", "pt/naive/image", "pt_naive_path", "bdpt", "bdptopt" }; pick(c, m.noisy, 2);
    for (auto& n : m.noisy) if (n == "pt/nee/image") m.rel = .01;
    m.desc = std::string(back ? "back side of " : "") + "emitter Ke=" + s6(L); c.label("emitter"); judge(c, m);
}
struct Plane { Vec3 p, n; double D; };
Plane plane(Ctx& c, Model& m, Vec3 rho, double max_tilt) {
    const double D = c.real(2, 4); const Vec3 ax = unit(Vec3(c.real(-1, 1), c.real(-1, 1) + 1e-3, 0)); const double a = c.real(-max_tilt, max_tilt);
    const Mat4 M = mat_mul(m_translate(Vec3(0, 0, -D)), mat_mul(m_rotate(a, ax), m_rotate(c.real(0, 6), Vec3(0, 0, 1))));
    const bool back = c.chance(.3);
    // just large enough for the view (particles are emitted towards the whole scene)
    double e = 0; const Vec3 nn = xform_point(m_rotate(a, ax), Vec3(0, 0, 1)); for (double rx : { 0., 1. }) for (double ry : { 0., 1. }) { const Vec3 d = m.v.local(rx, ry), x = d * (dot_(Vec3(0, 0, -D), nn) / dot_(d, nn)) - Vec3(0, 0, -D); e = std::max(e, std::sqrt(dot_(x, x))); }
    e *= c.real(1.45, 2); MeshSpec q = quad_mesh(e, e); if (back) q = flip(q);
    add(c, m, q, diffuse(c, "mat", rho), M);
    return { Vec3(0, 0, -D), xform_point(m_rotate(a, ax), Vec3(0, 0, 1)), D };
}
void delta_light(Ctx& c) {
    Model m; start(c, m, .4); const Vec3 rho = gen_color(c, 0, 1), L = gen_color(c, .1, 5); m.mv = c.weighted({ 1, 5, 2 }) + 2;
    const Plane P = plane(c, m, rho, .5); const bool point = c.coin();
    const double PI = 3.14159265358979323846; const bool seen = m.mv >= 3;
    if (point) {
        const Vec3 q = P.p + unit(P.n + Vec3(c.real(-.6, .6), c.real(-.6, .6), c.real(-.6, .6))) * c.real(1, 5);
        if (m.v.tf < 2 && q.z < 0 && std::fabs(q.y) < -q.z * m.v.tf * 1.2 && std::fabs(q.x) < -q.z * m.v.tf * m.v.asp * 1.2) throw pbt::Discard{};
        add_light(m, "light::point", { {"Le", J(L)}, {"position", J(m.v.at(q))} });
        m.radiance = [=](Vec3 d) { const double t = dot_(P.p, P.n) / dot_(d, P.n); const Vec3 x = d * t, r = q - x; const double D2 = dot_(r, r), cs = std::max(0., dot_(r, P.n) / std::sqrt(D2)); return seen ? rho * L * (cs / D2 / PI) : Vec3(0); };
        m.noisy = { "pt/mis/pixel", "pt/nee/pixel", "pt/nee/image", "pt/mis/image", "volpt", "pt_nee_path", "lt", "lt_nee_path", "bdpt", "bdptopt" };
        m.desc = "point light " + s6(L) + " at " + s6(q);
    } else {
        const Vec3 d = unit(P.n + Vec3(c.real(-.8, .8), c.real(-.8, .8), c.real(-.8, .8)));
        if (d.z < -.05) throw pbt::Discard{};
        add_light(m, "light::directional", { {"Le", J(L)}, {"direction", J(-m.v.dir(d) * c.logreal(.1, 10))} });
        const double cs = std::max(0., dot_(d, P.n));
        m.radiance = [=](Vec3) { return seen ? rho * L * (cs / PI) : Vec3(0); };
        m.exact = { "pt/mis/pixel", "pt/nee/pixel", "volpt" };
        m.noisy = { "pt/nee/image", "pt/mis/image", "bdpt", "bdptopt" };
        m.desc = "directional light " + s6(L) + " from " + s6(d);
    }
    m.s->build(); pick(c, m.noisy, 3); m.desc += " on a plane " + s6(rho) + " n=" + s6(P.n); c.label(point ? "point" : "directional"); judge(c, m);
}
// Irradiance from a uniform polygon (Lambert), receiver at x with normal n; the polygon is above the horizon
Vec3 lambert(const std::vector<Vec3>& p, Vec3 x, Vec3 n) {
    double s = 0; for (size_t i = 0; i < p.size(); i++) { const Vec3 a = unit(p[i] - x), b = unit(p[(i + 1) % p.size()] - x); const Vec3 g = cross_(a, b); const double l = std::sqrt(dot_(g, g)); if (l < 1e-14) continue; s += std::atan2(l, dot_(a, b)) * dot_(g / l, n); }
    return Vec3(std::fabs(s) / 2);
}
void area_direct(Ctx& c) {
    Model m; start(c, m, .35); const Vec3 rho = gen_color(c, 0, 1), L = gen_color(c, .1, 5); m.mv = c.weighted({ 1, 6 }) + 2;
    const Plane P = plane(c, m, rho, .4);
    // light: quad entirely above the plane and outside of the view, facing the plane
    const double a = c.real(.2, .8), b = c.real(.2, .8); Vec3 at = P.p + unit(P.n + Vec3(c.real(-.7, .7), c.real(-.7, .7), c.real(-.7, .7))) * c.real(1.5, 5);
    const Mat4 T = place(c, at, unit(unit(P.p - at) + gen_vec(c, .3)), c.in(0, 2)); MeshSpec q = quad_mesh(a, b);
    std::vector<Vec3> poly; for (auto& p : q.ps) poly.push_back(xform_point(T, p));
    bool behind = true; for (auto& p : poly) { if (dot_(p - P.p, P.n) < .3) throw pbt::Discard{}; behind &= p.z > .1; }
    // outside of the view: all corners on the outer side of one of the pyramid's planes, or behind
    bool out = behind; for (int k = 0; k < 4 && !out; k++) { const double X = m.v.tf * m.v.asp, Y = m.v.tf; const Vec3 pn = k == 0 ? Vec3(1, 0, X) : k == 1 ? Vec3(-1, 0, X) : k == 2 ? Vec3(0, 1, Y) : Vec3(0, -1, Y); out = true; for (auto& p : poly) out &= dot_(p, pn) > .02; }
    if (!out) throw pbt::Discard{};
    // emits towards the whole visible part of the plane
    const Vec3 ln = xform_normal(T, Vec3(0, 0, 1));
    for (double rx : { 0., 1. }) for (double ry : { 0., 1. }) { const Vec3 d = m.v.local(rx, ry), x = d * (dot_(P.p, P.n) / dot_(d, P.n)); if (dot_(x - poly[0], ln) < .05) throw pbt::Discard{}; }
    add(c, m, q, diffuse(c, "black", Vec3(0)), T, &L);
    const bool seen = m.mv >= 3;
    m.radiance = [=](Vec3 d) { const double t = dot_(P.p, P.n) / dot_(d, P.n); return seen ? rho * L * lambert(poly, d * t, P.n) / 3.14159265358979323846 : Vec3(0); };
    m.s->build(); m.noisy = { "pt/mis/pixel", "pt/nee/pixel", "pt/naive/pixel", "pt/mis/image", "pt/naive/image", "volpt", "volpt_naive", "pt_naive_path", "pt_nee_path", "lt", "lt_nee_path", "bdpt", "bdptopt" }; pick(c, m.noisy, 3);
    m.desc = "area light " + s6(L) + " of " + s6(4 * a * b) + " at " + s6(at) + " facing " + s6(ln) + " on a plane " + s6(rho) + " n=" + s6(P.n); c.label("area"); judge(c, m);
}
void furnace(Ctx& c) {
    Model m; start(c, m, .9); const bool lng = c.chance(.35); const Vec3 rho = lng ? gen_color(c, .75, .97) : gen_color(c, 0, .95), E = gen_color(c, .1, 3); m.mv = lng ? c.pick(std::vector<int>{ 9, 13, 20, 35 }) : c.pick(std::vector<int>{ 2, 3, 4, 5, 6, 6, 9 });
    const bool ball = c.coin(); MeshSpec q = flip(ball ? sphere(c.in(0, 1)) : box_mesh(Vec3(c.real(.7, 1.5), c.real(.7, 1.5), c.real(.7, 1.5))));
    const double sc = c.logreal(2, 8); add(c, m, q, diffuse(c, "mat", rho), mat_mul(m_scale(Vec3(sc)), mat_mul(m_translate(gen_vec(c, .2)), m_rotate(c.real(0, 6), gen_dir(c)))), &E);
    m.s->build(); Vec3 e(0), t = E; for (int k = 2; k <= m.mv; k++) { e += t; t *= rho; } m.radiance = [=](Vec3) { return e; };
    m.no_direct = E;
    m.noisy.push_back("pt/naive/pixel"); if (m.mv <= 6) m.upper = { "pt/naive/pixel" };      // rays started within the offset of an edge may leave the box
    for (const char* n : { "pt/mis/pixel", "pt/mis/image", "pt/naive/image", "volpt_naive", "pt_naive_path", "lt", "bdpt", "bdptopt" }) m.noisy.push_back(n);
    if (m.mv <= 3) m.noisy.push_back("volpt");
    if (lng) { m.noisy = { "pt/naive/pixel", "pt/mis/pixel", "pt/mis/image", "pt/naive/image", "volpt_naive", "lt" }; c.label("furnace-long"); }
    pick(c, m.noisy, 2); m.rel = lng ? .03 : .01;
    m.desc = std::string("closed ") + (ball ? "ball" : "box") + " Ke=" + s6(E) + " albedo " + s6(rho) + " scale " + s6(sc); c.label("furnace"); judge(c, m);
}
void open_furnace(Ctx& c) {
    Model m; start(c, m, .6); const Vec3 rho = gen_color(c, 0, 1), L = gen_color(c, .1, 3); m.mv = c.weighted({ 1, 4, 3, 1 }) + 2;
    const bool mirror = c.chance(.3); const bool ball = c.coin(); MeshSpec q = ball ? sphere(c.in(0, 1)) : box_mesh(Vec3(c.real(.7, 1.5), c.real(.7, 1.5), c.real(.7, 1.5)));
    const Mat4 M = mat_mul(m_translate(Vec3(c.real(-.5, .5), c.real(-.5, .5), -4)), mat_mul(m_scale(Vec3(c.logreal(.6, 1.7), c.logreal(.6, 1.7), c.logreal(.6, 1.7))), m_rotate(c.real(0, 6), gen_dir(c))));
    add(c, m, q, mirror ? asset("mat", "material::mirror", {}) : diffuse(c, "mat", rho), M); add_light(m, "light::envconst", { {"Le", J(L)} });
    m.s->build();
    // pixels entirely on the object, or entirely beside it
    std::vector<int> cls; for (int y = 0; y < m.v.h; y++) for (int x = 0; x < m.v.w; x++) {
        int n = 0; for (double dx : { 0., 1. }) for (double dy : { 0., 1. }) n += hits(q, M, m.v.local((x + dx) / m.v.w, (y + dy) / m.v.h));
        if (n == 4) cls.push_back(1); else if (n) cls.push_back(-1); else { bool any = false; for (int i = 0; i < 49 && !any; i++) any = hits(q, M, m.v.local((x + (i % 7) / 6.) / m.v.w, (y + (i / 7) / 6.) / m.v.h)); cls.push_back(any ? -1 : -2); }
    }
    const int w = m.v.w; m.defined = [=](int x, int y) { return cls[y * w + x] == 1; };
    const Vec3 e = m.mv >= 3 ? (mirror ? L : rho * L) : Vec3(0); m.radiance = [=](Vec3) { return e; };
    if (mirror) { m.exact = PX; m.noisy = { "pt/mis/image", "pt/naive/image", "pt_naive_path", "bdpt", "bdptopt" }; }
    else { m.exact = { "pt/naive/pixel", "volpt_naive" }; m.noisy = { "pt/mis/pixel", "pt/nee/pixel", "pt/mis/image", "volpt", "pt_naive_path", "lt", "lt_nee_path", "bdpt", "bdptopt" }; }
    if (m.mv > 6) { for (auto& x : m.exact) m.noisy.push_back(x); m.exact.clear(); }
    pick(c, m.noisy, 2); m.desc = std::string(mirror ? "mirror " : "diffuse ") + s6(rho) + (ball ? " ball" : " box") + " in an environment of " + s6(L); c.label("open-furnace"); judge(c, m);
}
void medium(Ctx& c) {
    Model m; start(c, m, .8); const Vec3 L = gen_color(c, .1, 3); const bool white = c.chance(.4); const double dens = c.logreal(.05, white ? .5 : 2);
    const Vec3 o = m.v.at(Vec3(0)), e(c.real(.5, 1.5), c.real(.5, 1.5), c.real(.5, 1.5)), q = o + m.v.dir(Vec3(0, 0, -1)) * c.real(0, 3) + gen_vec(c, .3), lo = q - e, hi = q + e;
    const Vec3 al = white ? Vec3(1) : Vec3(0); m.mv = white ? 400 : c.pick(std::vector<int>{ 2, 3, 8 });
    const double g = c.coin() ? 0 : c.real(-.7, .7); const auto ph = g == 0 && c.coin() ? asset("phase", "phase::isotropic", {}) : asset("phase", "phase::hg", { {"g", g} });
    std::string md; const bool homog = c.coin();
    if (homog) md = asset("medium", "medium::homogeneous", { {"density", dens}, {"albedo", J(al)}, {"phase", ph}, {"bound_min", J(lo)}, {"bound_max", J(hi)} });
    else {
        asset("va", "volume::constant", { {"color", J(al)}, {"bound_min", J(lo)}, {"bound_max", J(hi)} }); asset("vd", "volume::constant", { {"scalar", dens}, {"bound_min", J(lo)}, {"bound_max", J(hi)} });
        md = asset("medium", "medium::heterogeneous", { {"volume_density", "$.assets.vd"}, {"volume_albedo", "$.assets.va"}, {"phase", ph} });
    }
    m.s->add_child(0, m.s->create_primitive_node({ {"medium", md} }));
    add_light(m, "light::envconst", { {"Le", J(L)} });
    add(c, m, box_mesh(Vec3(.01)), diffuse(c, "hidden", Vec3(.5)), m_translate(Vec3(0, 0, 300)));
    m.s->build(); m.kinks = true; m.rel = .01;
    const Mat4 R = m.v.R; const View v = m.v;
    m.radiance = [=](Vec3 d) {
        if (white) return L;
        const Vec3 w = v.dir(d); double a = 0, b = 1e9; for (int k = 0; k < 3; k++) { if (std::fabs(w[k]) < 1e-14) { if (o[k] < lo[k] || o[k] > hi[k]) return L; continue; } double t0 = (lo[k] - o[k]) / w[k], t1 = (hi[k] - o[k]) / w[k]; if (t0 > t1) std::swap(t0, t1); a = std::max(a, t0); b = std::min(b, t1); }
        return b > a ? L * std::exp(-dens * (b - a)) : L;
    };
    m.noisy = { "volpt", "volpt_naive" }; m.desc = std::string(homog ? "homogeneous" : "heterogeneous") + (white ? " white" : " absorbing") + " medium density " + s6(dens) + " g=" + s6(g) + " in an environment of " + s6(L); c.label(white ? "white-medium" : "absorbing-medium"); judge(c, m);
}

// --- raycast and blank ----------------------------------------------------------------------------
void raycast(Ctx& c) {
    lm::reset(); GraphModel md; asset("acc", "accel::sahbvh", {}); lm::parallel::init("openmp", { {"num_threads", c.in(1, 3)} });
    const MatSpec ms = gen_material(c, "mat", true, true); load_material(ms);
    auto* s = get<Scene>(asset("scene", "scene::default", { {"accel", "$.assets.acc"} })); md.nodes.push_back({ true });
    gen_meshes(c, md, c.in(1, 2), c.in(1, 30)); gen_graph(c, s, md, c.in(1, 5));
    Vec3 Le(0); const bool env = c.chance(.4); if (env) { Le = gen_color(c, 0, 4); s->add_child(0, s->create_primitive_node({ {"light", asset("env", "light::envconst", { {"Le", J(Le)} })} })); md.nodes.push_back({ false }); }
    md.flatten(0, Mat4(1.0)); if (md.tris.size() > 2000) throw pbt::Discard{}; if (md.tris.empty() && !env) throw pbt::Discard{};
    View v; v.w = c.in(1, 12); v.h = c.in(1, 12); v.tf = c.logreal(.1, 2); v.asp = c.coin() ? double(v.w) / v.h : c.logreal(.4, 2.5);
    const Vec3 pos = gen_vec(c, 10); Vec3 tgt = gen_vec(c, 3); const Vec3 w = unit(pos - tgt), up = gen_dir(c); if (!std::isfinite(w.x) || std::sqrt(dot_(cross_(up, w), cross_(up, w))) < 1e-2) throw pbt::Discard{};
    const Vec3 u = unit(cross_(up, w)), vv = cross_(w, u);
    s->add_child(0, s->create_primitive_node({ {"camera", asset("camera", "camera::pinhole", { {"position", J(pos)}, {"center", J(tgt)}, {"up", J(up)}, {"vfov", std::atan(v.tf) * 360 / 3.14159265358979323846}, {"aspect", v.asp} })} }));
    s->build(); asset("film", "film::bitmap", { {"w", v.w}, {"h", v.h} }); auto* film = get<Film>("$.assets.film");
    Json p = { {"scene", "$.assets.scene"}, {"output", "$.assets.film"} }; const Vec3 bg = gen_color(c, 0, 2), col = gen_color(c, 0, 2); const bool hb = c.coin(), hc = c.coin(), cc = c.coin(), vn = c.chance(.3);
    if (hb) p["bg_color"] = J(bg); if (hc) p["color"] = J(col); if (cc || c.coin()) p["use_constant_color"] = cc; if (vn || c.coin()) p["visualize_normal"] = vn;
    auto* r = get<Renderer>(asset("r", "renderer::raycast", p));
    std::function<Vec3(const MatSpec&)> refl = [&](const MatSpec& m) { switch (m.kind) { case M_Diffuse: return m.Kd; case M_Glossy: return m.Ks; case M_Proxy: return refl(m.sub[0]); case M_MixRR: case M_MixMarg: { Vec3 t(0); for (size_t i = 0; i < m.sub.size(); i++) t += refl(m.sub[i]) * m.w[i]; return t; } case M_MixObj: return m.Kd + m.Ks; default: return Vec3(0); } };
    const Vec3 R = refl(ms); const bool rdef = ms.kind != M_MixObj;
    c.note("raycast ", md.tris.size(), " triangles, film ", v.w, "x", v.h, " material ", ms.str(), " ", p.dump()); c.label("raycast");
    int hit_px = 0; const int times = c.chance(.2) ? 2 : 1;
    for (int k = 0; k < times; k++) {
        dirty(c, film); r->render(); const auto b = film->buffer();
        for (int y = 0; y < v.h; y++) for (int x = 0; x < v.w; x++) {
            const double rx = (x + .5) / v.w, ry = (y + .5) / v.h; const Vec3 d = unit(u * (v.asp * v.tf * (2 * rx - 1)) + vv * (v.tf * (2 * ry - 1)) - w);
            const auto cand = crossings(md.tris, { pos, d }, Eps, Inf); LD t = 1e30L; int at = -1; bool amb = false; for (auto& q : cand) { if (!q.sure) amb = true; if (q.t < t) { t = q.t; at = &q - &cand[0]; } }
            for (auto& q : cand) if (int(&q - &cand[0]) != at && q.t < t + 1e-6L * (1 + t)) amb = true;
            if (amb) continue;
            Vec3 want; 
            if (at < 0) want = env && !vn ? Le : hb ? bg : Vec3(0);
            else {
                const auto& q = cand[at]; const auto& f = md.tris[q.tri]; const double uu = double(q.u), wv = double(q.v); const Vec3 n = xform_normal(f.M, unit(f.n[0] * (1 - uu - wv) + f.n[1] * uu + f.n[2] * wv)); hit_px++;
                if (vn) want = Vec3(std::fabs(n.x), std::fabs(n.y), std::fabs(n.z));
                else { if (!hc && !rdef) continue; want = hc ? col : R; if (!cc) want *= .2 + .8 * std::fabs(dot_(n, d)); }
            }
            const double* g = &b.data[3 * (y * v.w + x)]; c.evals++;
            c.check(near(Vec3(g[0], g[1], g[2]), want, 1e-4, 1e-5), "raycast", [&] { return "pixel (" + std::to_string(x) + "," + std::to_string(y) + ") is " + s6(Vec3(g[0], g[1], g[2])) + ", expected " + s6(want) + " [film " + std::to_string(v.w) + "x" + std::to_string(v.h) + " material " + ms.str() + " " + p.dump() + "]"; });
        }
    }
    dirty(c, film); const Vec3 bc = gen_color(c, 0, 9); get<Renderer>(asset("r2", "renderer::blank", { {"output", "$.assets.film"}, {"color", J(bc)} }))->render();
    const auto b = film->buffer(); for (int i = 0; i < v.w * v.h * 3; i++) c.check(b.data[i] == bc[i % 3], "blank", [&] { return "blank render holds " + S(b.data[i]) + ", color " + S(bc); });
    c.nontrivial = hit_px > 0;
}

// --- repetition -------------------------------------------------------------------------------------
void repeat(Ctx& c) {
    TOpt o; o.max_objs = 3; o.textured = false; o.medium = c.chance(.3); const TScene ts = gen_tscene(c, o);
    const int w = c.in(1, 6), h = c.in(1, 6); asset("film", "film::bitmap", { {"w", w}, {"h", h} }); auto* film = get<Film>("$.assets.film"); lm::parallel::init("openmp", { {"num_threads", 1} });
    double top = 0; for (int k = c.in(2, 5); k--;) {
    const std::string name = o.medium ? c.pick(std::vector<std::string>{ "volpt", "volpt_naive" }) : c.pick(std::vector<std::string>{ "pt/mis/pixel", "pt/nee/pixel", "pt/naive/pixel", "pt/mis/image", "volpt", "volpt_naive", "pt_naive_path", "pt_nee_path", "lt", "lt_nee_path", "bdpt", "bdptopt" });
    const int spp = c.in(1, 20), mv = c.in(2, 6); unsigned seed = c.chance(.45) ? c.pick(std::vector<unsigned>{ 0, 0, 1, 42, 0xffffffffu }) : unsigned(c.seed64() & 0x7fffffff);
    Json p = params(name); p.update({ {"scene", ts.loc}, {"output", "$.assets.film"}, {"max_verts", mv}, {"scheduler", "sample"}, {"spp", spp}, {"num_samples", (long long)spp * w * h}, {"seed", seed} });
    c.note("repeat ", name, " seed ", seed, " spp ", spp, " film ", w, "x", h, " max_verts ", mv, "; ", ts.desc); c.label("repeat " + name);
    const auto once = [&](const Json& q) { V v; auto* r = get<Renderer>(asset("r", rkey(name), q)); dirty(c, film); fresh([&] { r->render(); }); const auto b = film->buffer(); v.assign(b.data, b.data + 3 * w * h); return v; };
    const V a = once(p); Json q = p; q["seed"] = seed + 12345; V other; if (c.coin()) other = once(q); const V b = once(p);
    for (size_t i = 0; i < a.size(); i++) {
        c.check(std::isfinite(a[i]) && a[i] >= -1e-12, "finite", [&] { return name + ": pixel value " + S(a[i]) + " [" + ts.desc + " seed " + std::to_string(seed) + "]"; });
        c.check(a[i] == b[i], "repeat-" + name, [&] { return name + " with seed " + std::to_string(seed) + " gives " + S(a[i]) + ", then " + S(b[i]) + " for value " + std::to_string(i) + " [" + ts.desc + " film " + std::to_string(w) + "x" + std::to_string(h) + " spp " + std::to_string(spp) + "]"; });
        top = std::max(top, a[i]);
    }}
    c.nontrivial = top > 0;
}

void run(Ctx& c) {
    g_seed = pbt::Rand(c.seed64()); g_n = 0;
    switch (c.weighted({ 2, 2, 3, 3, 3, 3, 2, 3, 4 })) {
        case 0: env_only(c); break; case 1: emitter(c); break; case 2: delta_light(c); break; case 3: area_direct(c); break; case 4: furnace(c); break;
        case 5: open_furnace(c); break; case 6: medium(c); break; case 7: raycast(c); break; default: repeat(c);
    }
}
}

int main(int argc, char** argv) {
    pbt::Prop p;
    p.id = "P24";
    p.rule = "case = one scene with a known image under a random rigid motion, film size, aspect ratio, bound on the path length, thread count and sample count: constant environment, emitter filling the view, plane lit by a point, directional or area light, closed and open furnace, absorbing or white medium, raycast of a random scene graph; or a random scene rendered twice with one seed in fresh threads. The film holds arbitrary values before each render. Estimators without variance are compared exactly, the others by batch means confirmed twice. Non-trivial: the expected image is not black (raycast: some pixel shows a surface).";
    p.assumptions = { "surfaces, lights and camera keep a distance so that the estimators are bounded", "a deviation of a noisy estimator counts from 0.4% (1% with media and furnaces) and six standard errors", "repetition: one thread, fresh thread per render (the generators are per thread)", "raycast: pixels whose ray passes an edge within rounding are skipped" };
    p.run = run; p.worker_init = init_lm;
    p.quick_cases = 20000; p.thorough_cases = 400000; p.quick_s = 40; p.thorough_s = 1200;
    return pbt::main(argc, argv, p);
}
