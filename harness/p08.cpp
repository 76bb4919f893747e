// P08: tabulated distributions, sampling helpers, geometric helpers, random numbers.
#include "matgen.h"
using namespace lmgen;

namespace {
const double PI_ = 3.14159265358979323846;
double len(Vec3 v) { return std::sqrt(dot_(v, v)); }

std::vector<double> gen_weights(Ctx& c, int n) {
    std::vector<double> w(n); const int mode = c.in(0, 4);
    for (auto& x : w) x = mode == 0 ? c.unit() : mode == 1 ? (c.chance(.4) ? 0 : c.unit()) : mode == 2 ? c.logreal(1e-6, 1e6) : mode == 3 ? 1.0 : (c.chance(.85) ? 0 : double(c.in(1, 5)));
    if (c.chance(.3)) { const double k = c.logreal(1e-14, 1e12); for (auto& x : w) x *= k; }
    return w;
}
std::string S(const std::vector<double>& w) { std::string s; for (size_t i = 0; i < w.size() && i < 24; i++) s += s6(w[i]) + " "; return s; }

void dist1(Ctx& c) {
    const int n = c.in(1, c.chance(.1) ? 300 : 12); const auto w = gen_weights(c, n);
    Dist d; if (c.chance(.3)) { for (int k = c.in(1, 4); k > 0; k--) d.add(c.unit()); if (c.coin()) d.norm(); d.clear(); c.label("cleared"); }
    c.check(d.empty(), "dist-empty", [] { return std::string("fresh or cleared distribution is not empty"); });
    LD sum = 0; for (double x : w) { d.add(x); sum += x; }
    c.note("table ", S(w));
    const auto ctx = [&](const std::string& s) { return s + " [weights " + S(w) + "]"; };
    c.check(!d.empty(), "dist-empty", [&] { return ctx("distribution with entries is empty"); });
    d.norm();
    std::vector<LD> cum(n + 1); for (int i = 0; i < n; i++) cum[i + 1] = cum[i] + (sum > 0 ? w[i] / sum : 0);
    for (int i = 0; i < n; i++) c.check(std::fabs(d.pmf(i) - double(sum > 0 ? w[i] / sum : 0)) < 1e-12 * n, "pmf", [&] { return ctx("probability of entry " + std::to_string(i) + " is " + lmgen::S(d.pmf(i))); });
    for (int i : { -1, n, n + 5, -100 }) c.check(d.pmf(i) == 0, "pmf-outside", [&] { return ctx("probability of entry " + std::to_string(i) + " outside the table is " + lmgen::S(d.pmf(i))); });
    if (sum <= 0) { c.label("all-zero"); for (int k = 0; k < 4; k++) { const int i = d.sample(c.unit_c()); c.check(i >= 0 && i < n, "sample-range", [&] { return ctx("index " + std::to_string(i)); }); } c.nontrivial = true; return; }
    for (int k = 0; k < 40; k++) {
        double u = c.unit_c();
        if (k % 3 == 0) u = double(cum[c.in(0, n)]) + (c.in(-1, 1)) * 1e-16; u = std::min(std::max(u, 0.0), 1 - 1.2e-16);
        const int i = d.sample(u);
        c.check(i >= 0 && i < n, "sample-range", [&] { return ctx("draw " + lmgen::S(u) + " gives index " + std::to_string(i)); });
        if (i < 0 || i >= n) return;
        c.check(w[i] > 0, "sample-zero", [&] { return ctx("draw " + lmgen::S(u) + " gives entry " + std::to_string(i) + " of weight 0"); });
        c.check(double(cum[i]) <= u + 1e-12 && u - 1e-12 <= double(cum[i + 1]), "sample-interval", [&] { return ctx("draw " + lmgen::S(u) + " gives entry " + std::to_string(i) + " whose interval is [" + lmgen::S(double(cum[i])) + "," + lmgen::S(double(cum[i + 1])) + ")"); });
    }
    { const int i = d.sample(1.0); c.check(i >= 0 && i < n, "sample-range", [&] { return ctx("draw 1 gives index " + std::to_string(i)); }); }
    c.label("dist"); c.nontrivial = true;
}

void dist2(Ctx& c) {
    Dist2 d; if (c.chance(.3)) { const int a = c.in(1, 3), b = c.in(1, 3); std::vector<Float> v(a * b, 1.0); d.init(v, a, b); c.label("re-init"); }
    const int w = c.in(1, 7), h = c.in(1, 7); const auto t = gen_weights(c, w * h);
    d.init(t, w, h);
    LD sum = 0; for (double x : t) sum += x;
    c.note("2d table ", w, "x", h, ": ", S(t));
    const auto ctx = [&](const std::string& s) { return s + " [" + std::to_string(w) + "x" + std::to_string(h) + " table " + S(t) + "]"; };
    const auto P = [&](int x, int y) { return double(sum > 0 ? t[y * w + x] / sum : 0); };
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
        const double u = (x + .01 + .98 * c.unit()) / w, v = (y + .01 + .98 * c.unit()) / h, p = d.pdf(u, v);
        c.check(near(p, P(x, y) * w * h, 1e-9, 1e-9), "pdf2", [&] { return ctx("density at " + lmgen::S(Vec2(u, v)) + " is " + lmgen::S(p) + ", expected " + lmgen::S(P(x, y) * w * h)); });
    }
    c.nontrivial = true; c.label("dist2");
    if (sum <= 0) return;
    std::vector<LD> rc(h + 1); for (int y = 0; y < h; y++) { LD r = 0; for (int x = 0; x < w; x++) r += P(x, y); rc[y + 1] = rc[y] + r; }
    for (int k = 0; k < 30; k++) {
        Vec4 u(c.unit_c(), c.unit_c(), c.unit(), c.unit()); for (int i = 0; i < 2; i++) u[i] = std::min(u[i], 1 - 1.2e-16);
        const Vec2 s = d.sample(u); const int x = int(s.x * w), y = int(s.y * h);
        const double fx = s.x * w - std::floor(s.x * w + 1e-9), fy = s.y * h - std::floor(s.y * h + 1e-9);
        if (fx > 1 - 1e-6 || fy > 1 - 1e-6 || fx < 1e-6 || fy < 1e-6) continue;
        c.check(s.x >= 0 && s.x <= 1 && s.y >= 0 && s.y <= 1 && x < w && y < h, "sample2-range", [&] { return ctx("sample " + lmgen::S(s)); });
        c.check(P(x, y) > 0, "sample2-zero", [&] { return ctx("sample " + lmgen::S(s) + " in a cell of weight 0"); });
        c.check(double(rc[y]) <= u[0] + 1e-12 && u[0] - 1e-12 <= double(rc[y + 1]), "sample2-row", [&] { return ctx("draw " + lmgen::S(u[0]) + " gives row " + std::to_string(y)); });
        LD a = 0, row = 0; for (int i = 0; i < w; i++) { if (i < x) a += t[y * w + i]; row += t[y * w + i]; }
        const double lo = double(a / row), hi = double((a + t[y * w + x]) / row);
        c.check(lo <= u[1] + 1e-9 && u[1] - 1e-9 <= hi, "sample2-col", [&] { return ctx("draw " + lmgen::S(u[1]) + " gives column " + std::to_string(x)); });
        c.check(std::fabs(fx - u[2]) < 1e-9 && std::fabs(fy - u[3]) < 1e-9, "sample2-inner", [&] { return ctx("position inside the cell"); });
    }
}

// Area-preserving maps: map a grid and compare moments / exact pushforward relations.
void samplers(Ctx& c) {
    c.label("samplers");
    for (int k = 0; k < 24; k++) {
        const Vec2 u(c.unit_c(), c.unit_c());
        const Vec2 dk = math::sample_uniform_disk(u); const Vec3 cw = math::sample_cosine_weighted(u), us = math::sample_uniform_sphere(u);
        c.check(std::sqrt(dk.x * dk.x + dk.y * dk.y) <= 1 + 1e-12, "disk", [&] { return "disk sample " + lmgen::S(dk); });
        c.check(near(len(cw), 1, 1e-9) && cw.z >= 0, "cosine", [&] { return "cosine sample " + lmgen::S(cw); });
        c.check(near(len(us), 1, 1e-9), "sphere", [&] { return "sphere sample " + lmgen::S(us); });
    }
    const int K = 64; const double a = .5, b = .5; double m[12] = {}; int q[8] = {};
    for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) {
        const Vec2 u((i + a) / K, (j + b) / K);
        const Vec2 d = math::sample_uniform_disk(u); const Vec3 cw = math::sample_cosine_weighted(u), us = math::sample_uniform_sphere(u);
        m[0] += d.x; m[1] += d.y; m[2] += d.x * d.x; m[3] += d.y * d.y; m[4] += d.x * d.y; const double r2 = d.x * d.x + d.y * d.y; m[5] += r2 * r2;
        m[6] += cw.z; m[7] += cw.z * cw.z; m[8] += cw.x * cw.x; m[9] += us.z * us.z; m[10] += us.x * us.x; m[11] += us.x * us.z;
        q[(us.x > 0) + 2 * (us.y > 0) + 4 * (us.z > 0)]++;
    }
    const double want[12] = { 0, 0, .25, .25, 0, 1 / 3., 2 / 3., .5, .25, 1 / 3., 1 / 3., 0 };
    for (int i = 0; i < 12; i++) c.check(std::fabs(m[i] / (K * K) - want[i]) < .004, "moments", [&] { return "moment " + std::to_string(i) + " is " + lmgen::S(m[i] / (K * K)) + ", expected " + lmgen::S(want[i]); });
    for (int i = 0; i < 8; i++) c.check(std::abs(q[i] - K * K / 8) <= 2 * K, "octants", [&] { return "octant count " + std::to_string(q[i]); });
    c.check(near(math::pdf_uniform_disk(), 1 / PI_, 1e-12) && near(math::pdf_cosine_weighted_projSA(), 1 / PI_, 1e-12) && near(math::pdf_uniform_sphere(), 1 / (4 * PI_), 1e-12), "densities", [] { return std::string("constant densities"); });
    for (int k = 0; k < 8; k++) {
        const double p = c.chance(.2) ? 0 : c.logreal(1e-9, 1e9), r = c.chance(.2) ? 0 : c.logreal(1e-9, 1e9), h = math::balance_heuristic(p, r), h2 = math::balance_heuristic(r, p);
        c.check(p == 0 && r == 0 ? h == 0 : near(h, p / (p + r), 1e-9) && near(h + h2, 1, 1e-9), "balance", [&] { return "balance(" + lmgen::S(p) + "," + lmgen::S(r) + ")=" + lmgen::S(h); });
    }
    c.nontrivial = true;
}

void geometry(Ctx& c) {
    c.label("geometry");
    for (int k = 0; k < 16; k++) {
        const Vec3 n = gen_dir(c), w = gen_dir(c);
        const auto [u, v] = math::orthonormal_basis(n);
        const auto ctx = [&](const std::string& s) { return s + " [n=" + lmgen::S(n) + " w=" + lmgen::S(w) + "]"; };
        c.check(std::fabs(dot_(u, v)) < 1e-9 && std::fabs(dot_(u, n)) < 1e-9 && std::fabs(dot_(v, n)) < 1e-9 && near(len(u), 1, 1e-9) && near(len(v), 1, 1e-9) && near(cross_(u, v), n, 0, 1e-9), "basis", [&, u = u, v = v] { return ctx("not a right-handed orthonormal basis: " + lmgen::S(u) + " " + lmgen::S(v)); });
        const Vec3 r = math::reflection(w, n);
        c.check(near(r, n * (2 * dot_(w, n)) - w, 0, 1e-12), "reflection", [&] { return ctx("reflection " + lmgen::S(r)); });
        const Vec3 m = dot_(w, n) < 0 ? -n : n; const double eta = c.chance(.2) ? 1 : c.logreal(.3, 3), t = dot_(w, m), k2 = 1 - eta * eta * (1 - t * t);
        const auto q = math::refraction(w, m, eta);
        if (std::fabs(k2) > 1e-9) {
            c.check(q.total == (k2 < 0), "refraction-total", [&] { return ctx("total reflection flag wrong, eta=" + lmgen::S(eta)); });
            if (!q.total) c.check(near(len(q.wt), 1, 1e-7) && dot_(q.wt, m) <= 0 && near(q.wt - m * dot_(q.wt, m), (w - m * t) * -eta, 0, 1e-7), "refraction", [&] { return ctx("refracted direction " + lmgen::S(q.wt) + " violates Snell's law, eta=" + lmgen::S(eta)); });
        }
        const double th = c.real(0, PI_), ph = c.real(-7, 7); const Vec3 sc = math::spherical_to_cartesian(th, ph);
        c.check(near(sc, Vec3(std::sin(th) * std::cos(ph), std::sin(th) * std::sin(ph), std::cos(th)), 0, 1e-12), "spherical", [&] { return ctx("spherical coordinates"); });
        c.check(near(math::local_cos(w), w.z, 0, 1e-12) && near(math::local_sin(w), std::sqrt(std::max(0., 1 - w.z * w.z)), 0, 1e-9), "local-trig", [&] { return ctx("local sine/cosine"); });
        if (std::fabs(w.z) > 1e-6) { const double s2 = std::max(0., 1 - w.z * w.z), t1 = math::local_tan(w), t2 = math::local_tan2(w); c.check(near(t1, std::sqrt(s2) / w.z, 1e-9, 1e-12) && near(t2, s2 / (w.z * w.z), 1e-9, 1e-12), "local-trig", [&] { return ctx("local tangent " + lmgen::S(t1) + " " + lmgen::S(t2)); }); }
        const Vec3 a = gen_vec(c, 3), b = gen_vec(c, 3), d = gen_vec(c, 3); const Vec2 uv(c.unit(), c.unit());
        if (len(tri_cross(a, b, d)) > 1e-6) c.check(near(math::geometry_normal(a, b, d), unit(tri_cross(a, b, d)), 0, 1e-9), "normal", [&] { return ctx("geometry normal"); });
        c.check(near(math::mix_barycentric(a, b, d, uv), a * (1 - uv.x - uv.y) + b * uv.x + d * uv.y, 1e-12, 1e-12), "barycentric", [&] { return ctx("barycentric mix"); });
        const double x = c.real(-2, 2); c.check(near(math::safe_sqrt(x), x > 0 ? std::sqrt(x) : 0, 1e-12) && near(math::sq(x), x * x, 1e-12), "sqrt", [&] { return ctx("safe_sqrt/sq"); });
        Vec3 z = gen_vec(c, 1); if (c.coin()) z = Vec3(0); if (c.chance(.3)) { z = Vec3(0); z[c.in(0, 2)] = 1e-300; }
        c.check(math::is_zero(z) == (z.x == 0 && z.y == 0 && z.z == 0), "is-zero", [&] { return ctx("is_zero " + lmgen::S(z)); });
    }
    // bounds
    for (int k = 0; k < 12; k++) {
        Bound b; std::vector<Vec3> ps; for (int i = c.in(1, 5); i > 0; i--) { ps.push_back(gen_vec(c, 3)); b = merge(b, ps.back()); }
        Bound b2; for (int i = c.in(1, 3); i > 0; i--) { ps.push_back(gen_vec(c, 3)); b2 = merge(b2, ps.back()); }
        b = merge(b, b2); Vec3 lo(1e30), hi(-1e30); for (auto& p : ps) for (int i = 0; i < 3; i++) { lo[i] = std::min(lo[i], p[i]); hi[i] = std::max(hi[i], p[i]); }
        const Vec3 e = hi - lo;
        c.check(b.min == lo && b.max == hi && b[0] == lo && b[1] == hi && near(b.center(), (lo + hi) * .5, 1e-12, 1e-12) && near(b.surface_area(), 2 * (e.x * e.y + e.y * e.z + e.z * e.x), 1e-9, 1e-12), "bound", [&] { return std::string("bound of points wrong"); });
        // ray against the box: slabs in extended precision
        const Ray r{ gen_vec(c, 5), gen_dir(c) }; double tmin = c.coin() ? 0 : c.real(0, 3), tmax = c.coin() ? 1e10 : c.real(0, 12); if (tmin > tmax) std::swap(tmin, tmax);
        LD a = tmin, z = tmax; bool edge = false;
        for (int i = 0; i < 3; i++) {
            if (std::fabs(r.d[i]) < 1e-14) { if (std::fabs(r.o[i] - lo[i]) < 1e-9 || std::fabs(r.o[i] - hi[i]) < 1e-9) edge = true; else if (r.o[i] < lo[i] || r.o[i] > hi[i]) z = -1e30L; continue; }
            LD t1 = (LD(lo[i]) - r.o[i]) / r.d[i], t2 = (LD(hi[i]) - r.o[i]) / r.d[i]; if (t1 > t2) std::swap(t1, t2); a = std::max(a, t1); z = std::min(z, t2);
        }
        if (edge || std::fabs(double(z - a)) < 1e-9 * (1 + std::fabs(double(a)))) continue;
        Float ta = tmin, tb = tmax; const bool hit = b.isect(r, tmin, tmax), hit2 = b.isect_range(r, ta, tb);
        c.check(hit == (a <= z) && hit2 == hit, "bound-isect", [&] { return "ray " + lmgen::S(r.o) + " " + lmgen::S(r.d) + " range [" + lmgen::S(tmin) + "," + lmgen::S(tmax) + "] against box " + lmgen::S(lo) + " " + lmgen::S(hi) + ": " + (hit ? "hit" : "miss"); });
        if (hit2 && a <= z) c.check(near(ta, double(a), 1e-9, 1e-9) && near(tb, double(z), 1e-9, 1e-9), "bound-range", [&] { return "range [" + lmgen::S(ta) + "," + lmgen::S(tb) + "], expected [" + lmgen::S(double(a)) + "," + lmgen::S(double(z)) + "]"; });
    }
    // surface measure helpers on ordinary, degenerate and infinitely distant points
    for (int k = 0; k < 16; k++) {
        const auto mk = [&](int& kind) { kind = c.in(0, 2); const Vec3 p = gen_vec(c, 4), n = gen_dir(c); return kind == 0 ? PointGeometry::make_on_surface(p, n, unit(n + Vec3(c.real(-.3, .3), c.real(-.3, .3), c.real(-.3, .3)))) : kind == 1 ? PointGeometry::make_degenerated(p) : PointGeometry::make_infinite(n, p); };
        int ka, kb; const auto a = mk(ka), b = mk(kb);
        const double G = surface::geometry_term(a, b), G2 = surface::geometry_term(b, a);
        double want = 0; double D = 1e10;
        if (ka == 2 && kb == 2) want = 0;
        else {
            Vec3 d; double l2 = 1; if (ka == 2) d = a.wo; else if (kb == 2) d = -b.wo; else { d = b.p - a.p; l2 = dot_(d, d); if (l2 < 1e-6) continue; d = d / std::sqrt(l2); D = std::sqrt(l2); }
            want = (ka ? 1 : std::fabs(dot_(a.n, d))) * (kb ? 1 : std::fabs(dot_(b.n, d))) / l2;
        }
        const auto ctx = [&](const std::string& s) { return s + " [point kinds " + std::to_string(ka) + "," + std::to_string(kb) + "]"; };
        c.check(near(G, want, 1e-9, 1e-14) && near(G2, want, 1e-9, 1e-14), "geometry-term", [&] { return ctx("geometry term " + lmgen::S(G) + "/" + lmgen::S(G2) + ", expected " + lmgen::S(want)); });
        c.check(near(surface::distance(a, b), D, 1e-9) && near(surface::distance(b, a), D, 1e-9), "distance", [&] { return ctx("distance " + lmgen::S(surface::distance(a, b))); });
        const double p = c.logreal(1e-3, 1e3); c.check(near(surface::convert_pdf_to_area(p, a, b), p * want, 1e-9, 1e-12), "pdf-area", [&] { return ctx("area density"); });
        const Vec3 d = gen_dir(c);
        if (ka != 2) { const double j = ka == 1 ? 1 : std::fabs(dot_(a.n, d)); if (j > 1e-9) c.check(near(surface::convert_pdf_SA_to_projSA(p, a, d), p / j, 1e-9), "pdf-proj", [&] { return ctx("projected density"); }); }
        if (ka == 0) {
            const Vec3 wi = gen_dir(c), wo = gen_dir(c); const double ig = dot_(wi, a.gn), og = dot_(wo, a.gn), is = dot_(wi, a.n), os = dot_(wo, a.n);
            if (std::min({ std::fabs(ig), std::fabs(og), std::fabs(is), std::fabs(os) }) < 1e-6) continue;
            const bool z = ig * is <= 0 || og * os <= 0;
            const double le = surface::shading_normal_correction(a, wi, wo, TransDir::LE), el = surface::shading_normal_correction(a, wi, wo, TransDir::EL);
            c.check(near(el, z ? 0 : 1, 1e-9) && near(le, z ? 0 : is * og / (os * ig), 1e-7), "shading-normal", [&] { return ctx("shading normal correction " + lmgen::S(le) + "/" + lmgen::S(el)); });
            c.check(a.opposite(wi, wo) == (is * os <= 0), "opposite", [&] { return ctx("opposite()"); });
            const auto [n2, u2, v2] = a.orthonormal_basis_twosided(wi);
            c.check(near(n2, is > 0 ? a.n : -a.n, 0, 1e-12) && near(cross_(u2, v2), n2, 0, 1e-9) && std::fabs(dot_(u2, v2)) < 1e-9, "twosided", [&] { return ctx("two-sided basis"); });
            c.check(near(a.to_world * Vec3(0, 0, 1), a.n, 0, 1e-12) && near(a.to_local * (a.to_world * d), d, 0, 1e-9) && near(a.to_local * a.u, Vec3(1, 0, 0), 0, 1e-9), "frame", [&] { return ctx("local frame"); });
        }
    }
    // transforms
    { const Mat4 M = gen_transform(c, 3); const Transform T(M); const Vec3 n = gen_dir(c), want = xform_normal(M, n);
      c.check(near(unit(T.normal_M * n), want, 0, 1e-7) && near(T.J, std::fabs(double(det3(M))), 1e-9), "transform", [&] { return "normal transform or volume change wrong: J=" + lmgen::S(T.J); }); }
    c.nontrivial = true;
}

void rng(Ctx& c) {
    c.label("rng");
    const int seed = int(c.raw(0xffffffffu)); Rng a(seed), b(seed); c.note("seed ", seed);
    const int n = c.in(1, 200); double first = 0; std::vector<double> s;
    for (int i = 0; i < n; i++) {
        const double x = a.u(); s.push_back(x);
        c.check(x >= 0 && x < 1, "rng-range", [&] { return "number " + lmgen::S(x); });
        c.check(b.u() == x, "rng-repeat", [&] { return "same seed, different numbers"; });
        if (i == 0) first = x;
    }
    struct V7 { Vec2 a; Vec3 b; Vec2 c; };
    Rng d(seed), e(seed); const V7 v = d.next<V7>(); const double w[7] = { v.a.x, v.a.y, v.b.x, v.b.y, v.b.z, v.c.x, v.c.y };
    for (int i = 0; i < 7; i++) { const double x = e.u(); c.check(w[i] == x, "rng-vector", [&] { return "number " + std::to_string(i) + " of a structure is " + lmgen::S(w[i]) + ", the sequence has " + lmgen::S(x); }); }
    c.check(d.u() == e.u(), "rng-vector", [] { return std::string("structure consumes another amount of numbers"); });
    Rng f(seed ^ 1); bool same = true; for (int i = 0; i < 4; i++) same &= f.u() == (i < n ? s[i] : Rng(seed).u() * 0 - 1); 
    if (n >= 4) c.check(!same, "rng-seeds", [] { return std::string("different seeds, same numbers"); });
    { Rng g(seed); const int N = 4096; double m = 0, m2 = 0, l = 0, p = g.u(); for (int i = 0; i < N; i++) { const double x = g.u(); m += x; m2 += x * x; l += x * p; p = x; } m /= N; m2 /= N; l /= N;
      c.check(std::fabs(m - .5) < .04 && std::fabs(m2 - 1 / 3.) < .04 && std::fabs(l - .25) < .04, "rng-uniform", [&] { return "moments " + lmgen::S(m) + " " + lmgen::S(m2) + " " + lmgen::S(l); }); }
    { Rng g(seed), h(seed); for (int i = 0; i < 8; i++) { const int x = g.u_int(); c.check(x >= 0 && x == h.u_int(), "rng-int", [&] { return "integer " + std::to_string(x); }); } }
    (void)first; c.nontrivial = true;
}

void run(Ctx& c) {
    switch (c.weighted({ 6, 6, 1, 8, 2 })) { case 0: dist1(c); break; case 1: dist2(c); break; case 2: samplers(c); break; case 3: geometry(c); break; default: rng(c); }
}
}

int main(int argc, char** argv) {
    pbt::Prop p;
    p.id = "P08";
    p.rule = "case = one generated 1D table (zeros, single entries, huge ranges, re-used objects) with 40 draws incl. interval ends, or one 2D table with 30 draws and every cell's density, or a batch of geometric helper inputs (bases, reflection, refraction, boxes vs rays, geometry terms on ordinary/degenerate/infinite points, normal transforms), or one generator seed. Oracles: exact cumulative intervals and defining equations in extended precision. Non-trivial: every case.";
    p.assumptions = { "weights 0 or 1e-6..1e6", "comparisons at interval ends within 1e-12" };
    p.run = run; p.worker_init = init_lm;
    p.quick_cases = 1000000; p.thorough_cases = 100000000; p.quick_s = 20; p.thorough_s = 400;
    return pbt::main(argc, argv, p);
}
