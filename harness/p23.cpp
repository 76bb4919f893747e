// P23: all light transport algorithms have the same expectation in every pixel.
#include "tscene.h"
#include <thread>
using namespace lmgen;

namespace {
using V = std::vector<double>;      // pixels x channels, then the three channel means

struct Film_ { int w, h; };

struct Est { std::string name; std::function<V(Ctx&, int)> batch; bool tail = false; double big = 20; };   // batch(samples per pixel); big: size of a large single contribution

struct Stat { V mean, var, nz; int n = 0; double total = 0, big = 0; std::vector<V> b;   // nz: share of the batches that are not zero
    void add(const V& x) { b.push_back(x); }
    void done() {
        n = int(b.size()); mean.assign(b[0].size(), 0); var = nz = mean;
        for (auto& x : b) for (size_t i = 0; i < x.size(); i++) { mean[i] += x[i] / n; nz[i] += (x[i] != 0) / double(n); }
        for (auto& x : b) for (size_t i = 0; i < x.size(); i++) var[i] += (x[i] - mean[i]) * (x[i] - mean[i]) / (n - 1.) / n;   // variance of the mean
    }
};

Rng* g_unused = nullptr;
pbt::Rand g_seed(12345);

struct Job { std::string loc; Film* film; Film_ f; int mv; bool threads; };
int g_id = 0;

V render(Ctx& c, const Job& j, const std::string& key, Json extra, int spp) {
    (void)c;
    Json p = { {"scene", j.loc}, {"output", "$.assets.film"}, {"max_verts", j.mv}, {"scheduler", "sample"} };
    if (extra.is_object()) p.update(extra);
    p["spp"] = spp; p["num_samples"] = (long long)spp * j.f.w * j.f.h;     // per-pixel and per-image schedulers read their own
    p["seed"] = int(g_seed.u() * (1 << 30));
    auto* r = get<Renderer>(asset("r" + std::to_string(g_id++ % 7), key, p));
    // The generators of the renderers are per thread: a fresh thread makes them depend on the seed only
    std::exception_ptr ex; std::thread([&] { try { r->render(); } catch (...) { ex = std::current_exception(); } }).join(); if (ex) std::rethrow_exception(ex);
    const auto b = j.film->buffer();
    V v; double m[3] = {};
    for (int i = 0; i < j.f.w * j.f.h; i++) for (int k = 0; k < 3; k++) { const double x = b.data[3 * i + k]; v.push_back(x); m[k] += x / (j.f.w * j.f.h); }
    for (double x : m) v.push_back(x);
    return v;
}

// Closed room seen from inside, lit by an emitter or a point light: every path goes on, most light is indirect
TScene gen_room(Ctx& c) {
    lm::reset(); TScene r; std::ostringstream d; asset("acc", "accel::sahbvh", {}); r.loc = asset("scene", "scene::default", { {"accel", "$.assets.acc"} }); auto* s = r.scene = get<Scene>(r.loc);
    int id = 0;
    const auto put = [&](MeshSpec m, const MatSpec& mat, const Mat4& M, const Vec3* Ke) {
        const std::string n = std::to_string(id++); const auto mesh = asset("mesh" + n, "mesh::raw", m.json()), ml = load_material(mat); Json p = { {"mesh", mesh}, {"material", ml} };
        if (Ke) p["light"] = asset("light" + n, "light::area", { {"Ke", J(*Ke)}, {"mesh", mesh} });
        const int g = s->create_group_node(M); s->add_child(g, s->create_primitive_node(p)); s->add_child(0, g); d << mat.str() << (Ke ? " emitter; " : "; ");
    };
    const auto diffuse = [&](const std::string& n, Vec3 k) { MatSpec b; b.kind = M_Diffuse; b.name = n; b.key = "material::diffuse"; b.Kd = k; b.prop = { {"Kd", J(k)} }; return b; };
    const auto glossy = [&](const std::string& n, Vec3 k) { MatSpec b; b.kind = M_Glossy; b.name = n; b.key = "material::glossy"; b.Ks = k; b.ax = c.real(.3, .8); b.ay = c.coin() ? b.ax : c.real(.3, .8); b.prop = { {"Ks", J(k)}, {"ax", b.ax}, {"ay", b.ay} }; return b; };
    const Vec3 e(c.real(1, 2), c.real(1, 2), c.real(1, 2)); MeshSpec room = box_mesh(e); for (auto& n : room.ns) n = -n; for (size_t i = 0; i < room.fs.size(); i += 3) std::swap(room.fs[i + 1], room.fs[i + 2]);
    put(room, c.chance(.8) ? diffuse("walls", gen_color(c, .4, .95)) : glossy("walls", gen_color(c, .4, .9)), Mat4(1), nullptr);
    if (c.coin()) put(box_mesh(Vec3(c.real(.1, .3))), c.coin() ? diffuse("object", gen_color(c, .2, .95)) : glossy("object", gen_color(c, .3, .9)), mat_mul(m_translate(gen_vec(c, .4)), m_rotate(c.real(0, 6), gen_dir(c))), nullptr);
    const Vec3 L = gen_color(c, .5, 4);
    if (c.chance(.75)) { put(quad_mesh(c.real(.2, .5), c.real(.2, .5)), diffuse("emitter", c.coin() ? Vec3(0) : gen_color(c, 0, .8)), place(c, Vec3(c.real(-.3, .3), e.y * .75, c.real(-.3, .3)), unit(Vec3(c.real(-.3, .3), -1, c.real(-.3, .3))), 0), &L); r.n_area = 1; }
    else { s->add_child(0, s->create_primitive_node({ {"light", asset("lp", "light::point", { {"Le", J(L)}, {"position", J(Vec3(c.real(-.3, .3), e.y * .5, c.real(-.3, .3)))} })} })); r.n_point = 1; d << "point light; "; }
    const Vec3 cp(c.real(-.5, .5), -e.y * .4, e.z * .8); r.cam = cp;
    s->add_child(0, s->create_primitive_node({ {"camera", asset("camera", "camera::pinhole", { {"position", J(cp)}, {"center", J(cp + Vec3(c.real(-.3, .3), c.real(-.6, -.2), -1))}, {"up", Json::array({ 0, 1, 0 })}, {"vfov", c.real(30, 60)}, {"aspect", 1.} })} }));
    s->build(); r.desc = "room " + s6(e) + " " + d.str() + "camera at " + s6(cp); return r;
}

void run(Ctx& c) {
    g_seed = pbt::Rand(c.seed64());
    TOpt o; o.separated = true; o.min_rough = .25; o.textured = false; o.max_objs = 3; o.env_tex = true; o.light_mat = c.chance(.3);
    const int kind = c.weighted({ 8, 8, 6, 4, 2 });   // 0 rough, any light 1 specular, hittable lights 2 rough, hittable lights 3 medium 4 inside of a room
    o.smooth = c.chance(.2);
    if (kind == 0) { o.spec = o.glass = false; }
    if (kind == 1) { o.point = o.dir = false; }
    if (kind == 2) { o.spec = o.glass = false; o.point = o.dir = false; }
    if (kind == 3) { o.medium = true; o.spec = o.glass = c.coin(); o.smooth = false; o.point = o.dir = false; }
    const TScene ts = kind == 4 ? gen_room(c) : gen_tscene(c, o);
    const bool hit = ts.n_point + ts.n_dir == 0, inf = ts.n_env + ts.n_dir > 0, spec = ts.spec;
    // A delta light inside of the view is an image of zero size, seen by some algorithms only
    { const auto* cam = get<Camera>("$.assets.camera"); for (auto& q : ts.points) if (cam->raster_position(unit(q - ts.cam))) throw pbt::Discard{}; for (auto& q : ts.dirs) if (cam->raster_position(q)) throw pbt::Discard{}; }
    Job j; j.loc = ts.loc; j.f = { c.in(1, 3), c.in(1, 3) }; if (kind == 4) j.f = { 1, 1 }; if (j.f.w * j.f.h > 4) j.f.h = 1;
    j.mv = kind == 3 ? c.in(2, 5) : c.weighted({ 1, 3, 3, 2, 1 }) + 2; if (c.chance(.08)) j.mv = c.in(7, 9); if (kind == 4) j.mv = c.in(3, 7);
    asset("film", "film::bitmap", { {"w", j.f.w}, {"h", j.f.h} }); j.film = get<Film>("$.assets.film");
    const int nt = c.weighted({ 5, 2, 1 }) + 1; lm::parallel::init("openmp", { {"num_threads", nt} });
    c.note(ts.desc, "; film ", j.f.w, "x", j.f.h, " max_verts ", j.mv, " threads ", nt, "\n");
    const auto ctx = [&](const std::string& m) { return m + " [" + ts.desc + "; film " + std::to_string(j.f.w) + "x" + std::to_string(j.f.h) + " max_verts=" + std::to_string(j.mv) + " threads=" + std::to_string(nt) + "]"; };

    std::vector<Est> es;
    const auto R = [&](const std::string& name, const std::string& key, Json ex, bool tail = false) { es.push_back({ name, [=](Ctx& cc, int n) { return render(cc, j, key, ex, n); }, tail, key.find("bdpt") != std::string::npos || key.find("lt_") != std::string::npos ? 300. : 20. }); };
    // light tracing never sees emitters directly; the two-vertex paths are added from path tracing
    const auto R2 = [&](const std::string& name, const std::string& key, Json ex, bool tail) { es.push_back({ name, [=](Ctx& cc, int n) { V a = render(cc, j, key, ex, n); Job j2 = j; j2.mv = 2; const V b = render(cc, j2, "renderer::pt", { {"sampling_mode", std::string(hit ? "naive" : "mis")} }, n); for (size_t i = 0; i < a.size(); i++) a[i] += b[i]; return a; }, tail, 300. }); };
    Json rr = Json::object(); if (c.chance(.5)) rr["rr_prob"] = c.coin() ? 0. : c.real(0, .7);
    if (kind == 3) {
        R("volpt", "renderer::volpt", rr); R("volpt_naive", "renderer::volpt_naive", rr);
    } else {
        const bool any = !spec || hit;
        if (any) {
            for (const char* m : { "mis", "nee", "naive" }) for (const char* q : { "pixel", "image" }) if (hit || std::string(m) != "naive") R(std::string("pt/") + m + "/" + q, "renderer::pt", { {"sampling_mode", std::string(m)}, {"primary_ray_sampling_mode", std::string(q)} });
            R("volpt", "renderer::volpt", rr); if (hit) R("volpt_naive", "renderer::volpt_naive", rr);
            if (hit) R("pt_naive_path", "renderer::pt_naive_path", {});
            if (!inf) R("pt_nee_path", "renderer::pt_nee_path", {});
        }
        R("bdpt", "renderer::bdpt", {}, ts.smooth); R("bdptopt", "renderer::bdptopt", {}, ts.smooth);
        // short and long paths separately
        if (j.mv > 2) { const int k = c.in(2, j.mv - 1); const std::string key = c.coin() ? "renderer::bdpt" : "renderer::bdptopt";
            es.push_back({ key.substr(10) + "(split)", [=](Ctx& cc, int n) { Job j2 = j; j2.mv = k; V a = render(cc, j2, key, {}, n); const V b = render(cc, j, key, { {"min_verts", k + 1} }, n); for (size_t i = 0; i < a.size(); i++) a[i] += b[i]; return a; }, ts.smooth, 300. }); }
        if (!spec) {
            R2("lt", "renderer::lt", {}, ts.smooth);
            R2("lt_nee_path", "renderer::lt_nee_path", { {"min_verts", 3} }, ts.smooth);
            if (!ts.n_env) R("lt_nee_path(all)", "renderer::lt_nee_path", {}, ts.smooth);
        }
    }
    // keep the reference and a few of the others
    if (kind == 4) { es.erase(std::remove_if(es.begin() + 1, es.end(), [](const Est& e) { return e.name.find("bdpt") == std::string::npos && e.name != "lt"; }), es.end()); while (es.size() > 3) es.erase(es.begin() + 1 + c.raw(es.size() - 2)); }
    while (es.size() > 6) es.erase(es.begin() + 1 + c.raw(es.size() - 2));
    std::vector<std::string> names; for (auto& e : es) { names.push_back(e.name); c.label(e.name); }
    const auto sample = [&](const Est& e, int B, int n) { Stat s; for (int b = 0; b < B; b++) s.add(e.batch(c, n)); s.done(); s.total = double(B) * n; s.big = e.big;
        for (size_t i = 0; i < s.mean.size(); i++) c.check(std::isfinite(s.mean[i]) && s.mean[i] >= -1e-12, "finite", [&] { return ctx(e.name + ": pixel value " + S(s.mean[i])); });
        return s; };
    const int px = j.f.w * j.f.h, n1 = std::max(1, (c.tier ? 4000 : 1500) / px) * (kind == 4 ? 5 : 1), B = 12;
    // z values of a pair, per pixel/channel
    const auto worst = [&](const Stat& a, const Stat& b, double rel, size_t only, int sign, size_t* at, double* diff) {
        double best = 0;
        for (size_t i = 0; i < a.mean.size(); i++) {
            if (only != size_t(-1) && i != only) continue;
            // Where many batches are zero the light comes from rare events, and the scatter of the batches says nothing about those that did not happen
            const double mx = std::max(a.mean[i], b.mean[i]), rare = std::min(a.nz[i], b.nz[i]) < .75 ? mx * std::max(a.big, b.big) / std::min(a.total, b.total) : mx / std::min(a.total, b.total);
            const double d = b.mean[i] - a.mean[i], sd = std::sqrt(a.var[i] + b.var[i] + rare) + 1e-9 * (1 + std::fabs(a.mean[i]));
            if (sign && (d > 0) != (sign > 0)) continue;
            if (std::fabs(d) < rel * std::max(a.mean[i], b.mean[i])) continue;
            if (std::fabs(d) / sd > best) { best = std::fabs(d) / sd; *at = i; *diff = d; }
        }
        return best;
    };
    Stat ref = sample(es[0], B, n1); bool lit = false; for (double m : ref.mean) lit |= m > 1e-9;
    for (size_t k = 1; k < es.size(); k++) {
        Stat s = sample(es[k], B, n1); size_t at = 0; double d = 0;
        const double rel = es[k].tail || es[0].tail ? .1 : kind == 4 ? .005 : .01;
        double z = worst(ref, s, rel, size_t(-1), 0, &at, &d);
        c.evals++;
        if (z < 4.2) continue;
        c.label("confirm-1");
        const double d1 = d; const int sg = d > 0 ? 1 : -1; size_t at2 = at;
        Stat r2 = sample(es[0], 24, n1 * 4), s2 = sample(es[k], 24, n1 * 4);
        z = worst(r2, s2, rel, at2, sg, &at, &d); if (z < 4.5 || std::fabs(d) < .3 * std::fabs(d1)) continue;
        c.label("confirm-2"); const double d2 = d;
        r2 = sample(es[0], 32, n1 * 16); s2 = sample(es[k], 32, n1 * 16);
        z = worst(r2, s2, rel, at2, sg, &at, &d); if (z < 6 || std::fabs(d) < .5 * std::fabs(d2)) continue;
        const size_t pp = at2 / 3; c.fail("differ-" + es[k].name, ctx("expectation of " + (pp < size_t(px) ? "pixel " + std::to_string(pp) : std::string("the image")) + " channel " + std::to_string(at2 % 3) + ": " + es[k].name + " gives " + s6(s2.mean[at2]) + " +- " + s6(std::sqrt(s2.var[at2])) + ", " + es[0].name + " gives " + s6(r2.mean[at2]) + " +- " + s6(std::sqrt(r2.var[at2])) + " (" + std::to_string(32LL * n1 * 16) + " samples per pixel)"));
    }
    c.nontrivial = lit; c.label("kind-" + std::to_string(kind)); if (ts.smooth) c.label("smooth"); if (ts.glass) c.label("glass");
}
}

int main(int argc, char** argv) {
    pbt::Prop p;
    p.id = "P23";
    p.rule = "case = generated scene (rough, specular, refracting or medium; area, point, directional, environment lights), film of 1-4 pixels, bound on the path length and thread count, rendered by up to six of the applicable algorithms; per-pixel means of independent batches are compared with the first algorithm's, and a deviation is confirmed twice with more samples before it counts. Non-trivial: the image is not black.";
    p.assumptions = { "surfaces keep a distance from lights and camera so that every estimator is bounded; roughness at least 0.25", "delta lights are outside of the view", "algorithms are compared where they can sample all paths: naive ones with hittable lights, light tracing without specular surfaces, scenes with specular surfaces only with hittable lights", "a deviation counts from 1% of the pixel value (10% for particle-based estimators with shading normals, whose weights are unbounded) and six standard errors" };
    p.run = run; p.worker_init = init_lm;
    p.quick_cases = 3000; p.thorough_cases = 100000; p.quick_s = 45; p.thorough_s = 1500;
    return pbt::main(argc, argv, p);
}
