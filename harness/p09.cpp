// P09: participating media, phase functions and volumes against numerically integrated extinction.
#include "lmgen.h"
#include <lm/medium.h>
#include <lm/phase.h>
#include <lm/volume.h>
using namespace lmgen;

namespace {
const double PI_ = 3.14159265358979323846;
double len(Vec3 v) { return std::sqrt(dot_(v, v)); }
struct B { Vec3 lo, hi; bool in(Vec3 p, double e = 0) const { for (int i = 0; i < 3; i++) if (p[i] < lo[i] - e || p[i] > hi[i] + e) return false; return true; } };
// Own model of a density/colour field
struct Vol {
    int kind = 0;   // 0 constant 1 sphere 2 gaussian 3 checker 4 multi
    B b; double s = 1; Vec3 col{ 1 }; bool has_s = true, has_c = true; Vec3 pos{ 0 }, sigma{ 1 }; double r = 1;
    std::vector<Vol> den, alb; std::string loc, txt;
    double raw(Vec3 p) const {
        switch (kind) {
            case 0: return s;
            case 1: return len(p - pos) < r ? s : 0;
            case 2: { const Vec3 q = (p - pos) / sigma; return s * std::exp(-.5 * dot_(q, q)); }
            case 3: { const Vec3 t = (p - b.lo) / (b.hi - b.lo); return (int(std::floor(t.x * 5)) + int(std::floor(t.y * 5))) % 2 == 0 ? 1 : 0; }
        }
        double q = 0; for (auto& v : den) if (v.b.in(p)) q += v.raw(p); return q;
    }
    double f(Vec3 p) const { return b.in(p) ? raw(p) : 0; }
    Vec3 color(Vec3 p) const {
        if (kind != 4) return col;
        double q = 0; Vec3 a(0); for (size_t i = 0; i < den.size(); i++) if (den[i].b.in(p)) { const double w = den[i].raw(p); q += w; a += alb[i].color(p) * w; }
        return a / q;
    }
    double maxs() const { if (kind == 3) return 1; if (kind != 4) return s; double q = 0; for (auto& v : den) q += v.maxs(); return q; }
    // parameters where the field may be discontinuous along a ray
    void cuts(const Ray& r_, std::vector<double>& o) const {
        for (int i = 0; i < 3; i++) for (double x : { b.lo[i], b.hi[i] }) if (r_.d[i] != 0) o.push_back((x - r_.o[i]) / r_.d[i]);
        if (kind == 1) { const double bb = dot_(r_.o - pos, r_.d), cc = dot_(r_.o - pos, r_.o - pos) - r * r, D = bb * bb - cc; if (D > 0) { o.push_back(-bb - std::sqrt(D)); o.push_back(-bb + std::sqrt(D)); } }
        if (kind == 2) { for (double k = -7; k <= 7; k += .5) for (int i = 0; i < 3; i++) if (std::fabs(r_.d[i]) > 1e-9) o.push_back((pos[i] + k * sigma[i] - r_.o[i]) / r_.d[i]); }
        if (kind == 3) for (int i = 0; i < 2; i++) for (int k = 1; k < 5; k++) if (r_.d[i] != 0) o.push_back((b.lo[i] + (b.hi[i] - b.lo[i]) * k / 5. - r_.o[i]) / r_.d[i]);
        for (auto& v : den) v.cuts(r_, o);
    }
};
int g_id = 0; double g_L = 1;    // length scale of the case
Vol gen_vol(Ctx& c, int depth, bool need_s, bool need_c) {
    Vol v; v.kind = depth > 0 && c.chance(.3) ? 4 : need_c ? c.in(0, 2) : c.in(0, 3);
    if (v.kind == 3 && (need_c || g_L > 100)) v.kind = 0;   // (the density of a checker is always 1: too many collisions in large ones)
    v.s = c.logreal(.05, 8) / g_L; v.col = gen_color(c); v.pos = gen_vec(c, 2) * g_L; v.has_s = need_s || c.coin(); v.has_c = need_c || !v.has_s || c.coin();
    Json p; if (v.has_s && v.kind != 3 && v.kind != 4) p["scalar"] = v.s; if (v.has_c && v.kind != 3 && v.kind != 4) p["color"] = J(v.col);
    const char* key = "";
    if (v.kind == 0) { key = "volume::constant"; const Vec3 e = Vec3(c.logreal(.3, 4), c.logreal(.3, 4), c.logreal(.3, 4)) * g_L; v.b = { v.pos - e, v.pos + e }; p["bound_min"] = J(v.b.lo); p["bound_max"] = J(v.b.hi); }
    else if (v.kind == 1) { key = "volume::sphere"; v.r = c.logreal(.2, 3) * g_L; p["radius"] = v.r; p["pos"] = J(v.pos); v.b = { v.pos - Vec3(2 * v.r + 1), v.pos + Vec3(2 * v.r + 1) }; }
    else if (v.kind == 2) { key = "volume::gaussian"; v.sigma = Vec3(c.logreal(.1, 20), c.logreal(.1, 20), c.logreal(.1, 20)) * g_L; if (c.coin()) v.sigma = Vec3(c.logreal(.05, 30) * g_L); p["sigma"] = J(v.sigma); p["pos"] = J(v.pos); }
    else if (v.kind == 3) { key = "volume::checker"; const Vec3 e = Vec3(c.logreal(.5, 4), c.logreal(.5, 4), c.logreal(.5, 4)) * g_L; v.b = { v.pos - e, v.pos + e }; p["bound_min"] = J(v.b.lo); p["bound_max"] = J(v.b.hi); v.has_s = true; v.has_c = false; }
    else {
        key = "volume::multi"; v.has_s = v.has_c = true; const int n = c.in(1, 3); Json a = Json::array(), d = Json::array();
        for (int i = 0; i < n; i++) { v.den.push_back(gen_vol(c, depth - 1, true, false)); v.alb.push_back(gen_vol(c, 0, false, true)); d.push_back(v.den.back().loc); a.push_back(v.alb.back().loc); }
        p["volumes_den"] = d; p["volumes_alb"] = a;
    }
    v.loc = asset("vol" + std::to_string(g_id++), key, p);
    v.txt = std::string(key) + p.dump();
    for (auto& d : v.den) v.txt += " {" + d.txt + "}"; for (auto& d : v.alb) v.txt += " {albedo " + d.txt + "}";
    // The reported bound must enclose the field; it is then the domain of the medium.
    auto* q = get<Volume>(v.loc); const Bound rb = q->bound();
    const B rep = { rb.min, rb.max };
    const auto ctx = [&](const std::string& s) { return s + " [" + v.txt + "]"; };
    if (v.kind == 0 || v.kind == 3) c.check(near(rep.lo, v.b.lo, 1e-12) && near(rep.hi, v.b.hi, 1e-12), "bound", [&] { return ctx("bound " + S(rep.lo) + S(rep.hi)); });
    if (v.kind == 1) for (int i = 0; i < 3; i++) c.check(rep.lo[i] <= v.pos[i] - v.r && rep.hi[i] >= v.pos[i] + v.r, "bound", [&] { return ctx("bound " + S(rep.lo) + S(rep.hi) + " does not contain the sphere"); });
    if (v.kind == 2) for (int i = 0; i < 3; i++) c.check(rep.lo[i] <= v.pos[i] - 3.7 * v.sigma[i] && rep.hi[i] >= v.pos[i] + 3.7 * v.sigma[i], "gaussian-bound", [&] { return ctx("bound " + S(rep.lo) + S(rep.hi) + " cuts off density above 0.1% of the maximum"); });
    if (v.kind == 4) { Vec3 lo(1e18), hi(-1e18); for (auto& d : v.den) for (int i = 0; i < 3; i++) { lo[i] = std::min(lo[i], d.b.lo[i]); hi[i] = std::max(hi[i], d.b.hi[i]); } c.check(near(rep.lo, lo, 1e-12) && near(rep.hi, hi, 1e-12), "bound", [&] { return ctx("bound " + S(rep.lo) + S(rep.hi) + " of the union"); }); }
    v.b = rep;
    c.check(q->has_scalar() == v.has_s && q->has_color() == v.has_c, "has", [&] { return ctx("has_scalar=" + std::to_string(q->has_scalar()) + " has_color=" + std::to_string(q->has_color())); });
    if (v.has_s) c.check(near(q->max_scalar(), v.maxs(), 1e-9), "max", [&] { return ctx("maximum " + S(q->max_scalar()) + ", expected " + S(v.maxs())); });
    return v;
}
bool near_cut(const Vol& v, Vec3 p) {
    for (int i = 0; i < 3; i++) if (std::fabs(p[i] - v.b.lo[i]) < 1e-6 * g_L || std::fabs(p[i] - v.b.hi[i]) < 1e-6 * g_L) return true;
    if (v.kind == 1 && std::fabs(len(p - v.pos) - v.r) < 1e-6 * g_L) return true;
    if (v.kind == 3) for (int i = 0; i < 2; i++) { const double t = (p[i] - v.b.lo[i]) / (v.b.hi[i] - v.b.lo[i]) * 5; if (std::fabs(t - std::round(t)) < 1e-5) return true; }
    for (auto& d : v.den) if (near_cut(d, p)) return true;
    return false;
}
// optical depth over [a,b]
struct Tau {
    const Vol& v; Ray r; std::vector<double> ks;
    Tau(const Vol& v_, Ray r_, double a, double b) : v(v_), r(r_) {
        std::vector<double> o; v.cuts(r, o); ks.push_back(a); for (double x : o) if (x > a && x < b) ks.push_back(x); ks.push_back(b); std::sort(ks.begin(), ks.end());
    }
    double operator()(double t) const {
        static const double X[4] = { .1834346424956498, .5255324099163290, .7966664774136267, .9602898564975363 }, W[4] = { .3626837833783620, .3137066458778873, .2223810344533745, .1012285362903763 };
        LD s = 0;
        for (size_t i = 0; i + 1 < ks.size(); i++) {
            const double a = ks[i], b = std::min(ks[i + 1], t); if (b <= a) continue;
            const double m = (a + b) / 2, h = (b - a) / 2;
            if (v.f(r.o + r.d * m) == 0 && v.f(r.o + r.d * (a + .3 * (b - a))) == 0) continue;
            for (int k = 0; k < 4; k++) for (int sg : { -1, 1 }) s += h * W[k] * v.f(r.o + r.d * (m + sg * h * X[k]));
        }
        return double(s);
    }
};
// 1e-12 deviation bound of the mean of n samples in [0,1] with mean m (Bernstein)
double dev(double m, int n) { m = std::min(1., std::max(0., m)); return std::sqrt(2 * 28. * m * (1 - m) / n) + 28. / (1.5 * n); }

void volumes(Ctx& c) {
    const Vol v = gen_vol(c, 2, c.coin(), c.coin()); auto* q = get<Volume>(v.loc);
    c.note("volume ", v.txt);
    const auto ctx = [&](const std::string& s) { return s + " [" + v.txt + "]"; };
    for (int k = 0; k < 60; k++) {
        Vec3 p = v.b.lo + (v.b.hi - v.b.lo) * Vec3(c.unit(), c.unit(), c.unit()); if (k % 4 == 0) p = v.pos + gen_vec(c, 4) * g_L;
        if (!v.b.in(p) || near_cut(v, p)) continue;
        if (v.has_s) {
            const double a = q->eval_scalar(p);
            c.check(near(a, v.raw(p), 1e-9, 1e-12), "scalar", [&] { return ctx("value " + S(a) + " at " + S(p) + ", expected " + S(v.raw(p))); });
            c.check(a >= 0 && a <= q->max_scalar() * (1 + 1e-12), "max-exceeded", [&] { return ctx("value " + S(a) + " above the maximum " + S(q->max_scalar())); });
        }
        if (v.has_c && (v.kind != 4 || v.raw(p) > 1e-9)) { const Vec3 a = q->eval_color(p); c.check(near(a, v.color(p), 1e-9, 1e-12), "color", [&] { return ctx("color " + S(a) + " at " + S(p) + ", expected " + S(v.color(p))); }); }
    }
    c.nontrivial = true; c.label("volume"); c.label("volume-kind-" + std::to_string(v.kind));
}

void phase(Ctx& c) {
    const bool iso = c.chance(.2); double g = iso ? 0 : c.weighted({ 6, 1, 1 }) == 0 ? c.real(-.95, .95) : c.coin() ? 0 : c.real(-.003, .003);
    auto* ph = get<Phase>(iso ? asset("phase", "phase::isotropic", {}) : asset("phase", "phase::hg", { {"g", g} }));
    const Vec3 wi = gen_dir(c); const auto geom = PointGeometry::make_degenerated(gen_vec(c, 3));
    c.note("phase g=", g, " wi=", s6(wi));
    const auto ctx = [&](const std::string& s) { return s + " [g=" + S(g) + " wi=" + S(wi) + "]"; };
    const auto P = [&](double co) { const double t = 1 + g * g - 2 * g * co; return (1 - g * g) / (4 * PI_ * t * std::sqrt(t)); };
    for (int k = 0; k < 24; k++) {
        const Vec3 wo = k == 0 ? -wi : k == 1 ? wi : gen_dir(c); const double co = -dot_(wi, wo);
        const double pdf = ph->pdf_direction(geom, wi, wo); const Vec3 f = ph->eval(geom, wi, wo);
        c.check(near(pdf, P(co), 1e-9), "phase-pdf", [&] { return ctx("density " + S(pdf) + " for wo=" + S(wo) + ", expected " + S(P(co))); });
        c.check(near(f, Vec3(P(co)), 1e-9), "phase-eval", [&] { return ctx("value " + S(f) + " for wo=" + S(wo) + ", expected " + S(P(co))); });
        c.check(near(ph->eval(geom, wo, wi), f, 1e-9), "phase-reciprocity", [&] { return ctx("value changes on exchange with wo=" + S(wo)); });
    }
    // normalisation by quadrature in the cosine
    { LD s = 0; const int n = 20000; for (int i = 0; i < n; i++) { const double z = -1 + 2 * (i + .5) / n; const auto [u, v] = math::orthonormal_basis(wi); s += ph->pdf_direction(geom, wi, u * std::sqrt(1 - z * z) + wi * z); } s *= 2 * PI_ * 2 / n;
      c.check(std::fabs(double(s) - 1) < 2e-3, "phase-norm", [&] { return ctx("density integrates to " + S(double(s))); }); }
    // sampler against the density: uniformity of the transformed polar angle and of the azimuth
    const auto F = [&](double z) { return std::fabs(g) < 1e-6 ? (z + 1) / 2 : (1 - g * g) / (2 * g) * (1 / std::sqrt(1 + g * g - 2 * g * z) - 1 / (1 + g)); };
    pbt::Rand r(c.seed64()); const int n = 8000; std::vector<double> a, b;
    Vec3 t = std::fabs(wi.x) < .6 ? Vec3(1, 0, 0) : Vec3(0, 1, 0); t = unit(cross_(wi, t)); const Vec3 s = cross_(wi, t);
    for (int i = 0; i < n; i++) {
        const auto d = ph->sample_direction({ Vec2(r.u(), r.u()) }, geom, wi);
        c.check(bool(d) && near(len(d->wo), 1, 1e-9), "phase-sample", [&] { return ctx("sampled direction is not a unit vector"); });
        const double pdf = ph->pdf_direction(geom, wi, d->wo); const Vec3 f = ph->eval(geom, wi, d->wo);
        c.check(near(d->weight * pdf, f, 1e-9), "phase-weight", [&] { return ctx("weight " + S(d->weight) + " * density " + S(pdf) + " != value " + S(f)); });
        a.push_back(F(-dot_(d->wo, wi))); b.push_back(std::atan2(dot_(d->wo, t), dot_(d->wo, s)) / (2 * PI_) + .5);
    }
    for (auto* x : { &a, &b }) {
        std::sort(x->begin(), x->end()); double D = 0; for (int i = 0; i < n; i++) D = std::max({ D, std::fabs((*x)[i] - double(i) / n), std::fabs((*x)[i] - double(i + 1) / n) });
        c.check(D < std::sqrt(29. / (2. * n)) + 1e-3, x == &a ? "phase-polar" : "phase-azimuth", [&] { return ctx("sampled directions deviate from the density: largest difference of the distribution functions " + S(D)); });
    }
    c.nontrivial = true; c.label(iso ? "isotropic" : "hg");
}

void medium(Ctx& c) {
    asset("ph", "phase::isotropic", {});
    const bool homo = c.chance(.4); Vol den, alb; Json p; std::string loc;
    if (homo) {
        den.kind = 0; den.s = c.chance(.05) ? 0 : c.logreal(.02, 20) / g_L; den.b = { Vec3(-1e10), Vec3(1e10) }; alb.kind = 0; alb.col = gen_color(c);
        p = { {"density", den.s}, {"albedo", J(alb.col)}, {"phase", "$.assets.ph"} };
        if (c.chance(.7)) { const Vec3 o = gen_vec(c, 2) * g_L, e = Vec3(c.logreal(.3, 4), c.logreal(.3, 4), c.logreal(.3, 4)) * g_L; den.b = { o - e, o + e }; p["bound_min"] = J(den.b.lo); p["bound_max"] = J(den.b.hi); den.pos = o; } else { c.label("unbounded"); if (c.coin()) den.pos = gen_dir(c) * c.logreal(1e2, 1e6); }
        loc = asset("medium", "medium::homogeneous", p);
    } else {
        den = gen_vol(c, 1, true, false); alb = den.kind == 4 && c.coin() ? den : gen_vol(c, 0, false, true);
        p = { {"volume_density", den.loc}, {"volume_albedo", alb.loc}, {"phase", "$.assets.ph"} };
        loc = asset("medium", "medium::heterogeneous", p);
    }
    auto* md = get<Medium>(loc);
    c.check(md->phase() == get<Phase>("$.assets.ph") && !md->is_emitter(), "phase-ref", [&] { return std::string("phase function of the medium"); });
    const std::string txt = homo ? p.dump() : den.txt + " albedo " + alb.txt;
    for (int rep = 0; rep < 3; rep++) {
        Ray r; r.o = den.pos + gen_vec(c, c.coin() ? 1 : 6) * g_L; r.d = gen_dir(c);
        if (c.chance(.6)) { const double d0 = len(den.pos - r.o); if (d0 > .1 * g_L) r.d = unit(unit(den.pos - r.o) + gen_vec(c, .4)); }
        for (int i = 0; i < 3; i++) for (double x : { den.b.lo[i], den.b.hi[i] }) if (std::fabs(r.o[i] - x) < 1e-6 * g_L) throw pbt::Discard{};
        const double a = c.coin() ? 0 : c.real(0, 3) * g_L, b = c.chance(.25) ? 1e10 : a + c.logreal(.1, 12) * g_L;
        // range inside the bound
        double lo = a, hi = b; for (int i = 0; i < 3; i++) { if (r.d[i] == 0) { if (r.o[i] < den.b.lo[i] || r.o[i] > den.b.hi[i]) hi = -1; continue; } double t1 = (den.b.lo[i] - r.o[i]) / r.d[i], t2 = (den.b.hi[i] - r.o[i]) / r.d[i]; if (t1 > t2) std::swap(t1, t2); lo = std::max(lo, t1); hi = std::min(hi, t2); }
        const bool inside = hi > lo;
        if (inside && hi - lo < 1e-6 * g_L) continue;
        const Tau tau(den, r, a, inside ? hi : a); const double all = inside ? (homo ? den.s * (hi - lo) : tau(hi)) : 0;
        c.note("medium ", txt, " ray ", s6(r.o), s6(r.d), " range ", s6(a), "..", s6(b), " tau=", s6(all), "\n");
        const auto ctx = [&](const std::string& s) { return s + " [" + txt + "; ray o=" + S(r.o) + " d=" + S(r.d) + " range " + S(a) + ".." + S(b) + " optical depth " + S(all) + "]"; };
        if (!homo && all > 60) continue;
        Rng rng(int(c.raw(1 << 30)));
        const double T = std::exp(-all), tt = 1e-9 * g_L + 1e-15 * len(r.o) * 8;
        // now and then many samples, which shows biases of a percent
        const bool deep = rep == 0 && inside && all > .02 && (hi - lo) * den.maxs() < 60 && c.chance(homo ? .02 : .04); if (deep) c.label("deep");
        if (homo) { const Vec3 q = md->eval_transmittance(rng, r, a, b); c.check(near(q, Vec3(T), 1e-9, 1e-12), "transmittance", [&] { return ctx("transmittance " + S(q) + ", expected " + S(T)); }); }
        else {
            const int n = deep ? 150000 : 3000; double m = 0, m2 = 0; for (int i = 0; i < n; i++) { const Vec3 q = md->eval_transmittance(rng, r, a, b); c.check(q.x == q.y && q.x == q.z && q.x >= -1e-12 && q.x <= 1 + 1e-12, "transmittance-range", [&] { return ctx("transmittance estimate " + S(q)); }); m += q.x; m2 += q.x * q.x; } m /= n; m2 = m2 / n - m * m;
            c.check(std::fabs(m - T) < (deep ? std::min(dev(T, n), std::sqrt(2 * 29. * std::max(m2, 0.) / n) + 3 * 29. / n) : dev(T, n) + 1e-3) + 2e-5, "transmittance", [&] { return ctx("mean transmittance " + S(m) + " over " + std::to_string(n) + " estimates, expected " + S(T)); });
        }
        // free-flight law
        const int n = deep ? 150000 : 3000; std::vector<double> ts; 
        for (int i = 0; i < n; i++) {
            const auto d = md->sample_distance(rng, r, a, b);
            if (!d || !d->medium) { if (d) c.check(d->weight == Vec3(1), "surface-weight", [&] { return ctx("weight " + S(d->weight) + " without a collision"); }); continue; }
            const double t = dot_(d->p - r.o, r.d);
            c.check(inside && t >= lo - tt && t <= hi + tt && len(d->p - (r.o + r.d * t)) < 1e-7 * (1 + std::fabs(t)), "collision-range", [&] { return ctx("collision at distance " + S(t) + " outside of " + (inside ? S(lo) + ".." + S(hi) : std::string("an empty range"))); });
            if (!homo && !near_cut(den, d->p)) c.check(den.f(d->p) > 0, "collision-vacuum", [&] { return ctx("collision at " + S(d->p) + " where the density is 0"); });
            if (homo || !near_cut(alb, d->p)) c.check(near(d->weight, alb.color(d->p), 1e-9, 1e-12), "collision-weight", [&] { return ctx("weight " + S(d->weight) + " of the collision, albedo is " + S(alb.color(d->p))); });
            ts.push_back(t);
        }
        if (!inside) { c.label("missed"); continue; }
        const double top = std::isfinite(hi) && hi < 1e9 ? hi : lo + 10 / std::max(den.s, 1e-3 / g_L);
        for (int k = 0; k < 6; k++) {
            const double t = k == 0 ? hi : lo + (top - lo) * c.unit(), e = 1 - std::exp(-(homo ? den.s * (t - lo) : tau(t)));
            double m = 0; for (double x : ts) m += x <= t; m /= n;
            c.check(std::fabs(m - e) < dev(e, n) + (deep ? 2e-5 : 1e-3), "free-flight", [&] { return ctx("fraction " + S(m) + " of " + std::to_string(n) + " samples collide before " + S(t) + ", expected " + S(e)); });
        }
        if (all > .05 && all < 10) c.nontrivial = true;
        c.label(homo ? "homogeneous" : "heterogeneous-" + std::to_string(den.kind));
    }
}
void run(Ctx& c) {
    lm::reset(); g_id = 0; g_L = c.chance(.7) ? 1 : c.pick(std::vector<double>{ .003, .05, 40, 900 });
    switch (c.weighted({ 3, 2, 6 })) { case 0: volumes(c); break; case 1: phase(c); break; default: medium(c); }
}
}
int main(int argc, char** argv) {
    pbt::Prop p; p.id = "P09";
    p.rule = "generated volumes (constant, sphere, gaussian, checker, multi), media with ray segments, and phase functions; non-trivial: a medium case has an optical depth in (0.05,10) along a tested segment, volume and phase cases always are";
    p.assumptions = { "statistical comparisons use Bernstein/DKW bounds at error probability about 1e-12 per comparison, so biases below a few percent in one configuration (about one percent in the 150000-sample ones) are not seen",
        "asymmetry |g|<=0.95; positive densities up to 20 per unit of the length scale (0.003..40); points within 1e-6 scale units of a discontinuity of the field are not compared" };
    p.run = run; p.quick_cases = 60000; p.thorough_cases = 2000000; p.quick_s = 30; p.thorough_s = 420; p.case_timeout = 30;
    p.worker_init = [] { lm::init(); lm::log::set_severity(lm::log::LogLevel::Err); };
    return pbt::main(argc, argv, p);
}
