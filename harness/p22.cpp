// P22: weights, densities and contributions of generated paths satisfy their defining identities.
#include "tscene.h"
#include <lm/bidir.h>
#include <lm/medium.h>
#include <lm/phase.h>
using namespace lmgen;
namespace lp = lm::path;

namespace {
using SI = SceneInteraction;
double len(Vec3 v) { return std::sqrt(dot_(v, v)); }
bool zero(Vec3 v) { return v.x == 0 && v.y == 0 && v.z == 0; }
bool sane(Vec3 v) { return finite(v) && v.x >= 0 && v.y >= 0 && v.z >= 0; }

// --- own description of a path: only component interfaces and plain geometry -----------------------
Vec3 dirn(const PointGeometry& a, const PointGeometry& b) {
    if (a.infinite) return a.wo;
    if (b.infinite) return -b.wo;
    return unit(b.p - a.p);
}
double G(const PointGeometry& a, const PointGeometry& b) {
    const Vec3 d = dirn(a, b); const double L2 = a.infinite || b.infinite ? 1 : dot_(b.p - a.p, b.p - a.p);
    const double c1 = a.degenerated || a.infinite ? 1 : std::fabs(dot_(a.n, d)), c2 = b.degenerated || b.infinite ? 1 : std::fabs(dot_(b.n, d));
    return c1 * c2 / L2;
}
double corr(const PointGeometry& g, Vec3 wi, Vec3 wo, TransDir td) {
    const double ig = dot_(wi, g.gn), og = dot_(wo, g.gn), is = dot_(wi, g.n), os = dot_(wo, g.n);
    if (ig * is <= 0 || og * os <= 0) return 0;
    return td == TransDir::LE ? is * og / (os * ig) : 1;
}
auto prim(const Scene* s, const Vert& v) -> decltype((s->node_at(0).primitive)) { return s->node_at(v.sp.primitive).primitive; }
// Scattering or emission at a vertex
Vec3 fs(const Scene* s, const Vert& v, Vec3 wi, Vec3 wo, TransDir td, bool delta) {
    const auto& p = prim(s, v);
    switch (v.sp.type) {
        case SI::CameraEndpoint: return p.camera->eval(wo);
        case SI::LightEndpoint: return p.light->eval(v.sp.geom, wo, delta);
        case SI::MediumInteraction: return p.medium->phase()->eval(v.sp.geom, wi, wo);
        default: return p.material->eval(v.sp.geom, wi, wo, v.comp, Material::TransDir(td), delta) * corr(v.sp.geom, wi, wo, td);
    }
}
double pdir(const Scene* s, const Vert& v, Vec3 wi, Vec3 wo) {
    const auto& p = prim(s, v);
    switch (v.sp.type) {
        case SI::CameraEndpoint: return p.camera->pdf_direction(v.sp.geom, wo);
        case SI::LightEndpoint: return p.light->pdf_direction(v.sp.geom, wo);
        case SI::MediumInteraction: return p.medium->phase()->pdf_direction(v.sp.geom, wi, wo);
        default: return p.material->pdf_direction(v.sp.geom, wi, wo, v.comp, false);
    }
}
double pcomp(const Scene* s, const Vert& v, Vec3 wi) { return v.sp.type == SI::SurfaceInteraction ? prim(s, v).material->pdf_component(v.comp, v.sp.geom, wi) : 1; }
bool is_spec(const Scene* s, const Vert& v) { return v.sp.type == SI::SurfaceInteraction ? prim(s, v).material->is_specular_component(v.comp) : v.sp.type == SI::LightEndpoint ? prim(s, v).light->is_specular() : false; }
bool connectable(const Scene* s, const Vert& v) { return v.sp.type == SI::CameraEndpoint ? prim(s, v).camera->is_connectable(v.sp.geom) : prim(s, v).light->is_connectable(v.sp.geom); }
struct LightAt { int index; Transform T; };
LightAt light_at(const Scene* s, int node) {
    for (int i = 0; i < s->num_lights(); i++) { const auto l = s->light_primitive_index_at(i); if (l.index == node) return { i, l.global_transform }; }
    throw pbt::Fail{ "light-table", "light vertex on a primitive that is not in the light table" };
}
double psel(const Scene* s) { return 1. / s->num_lights(); }
double ppos(const Scene* s, const Vert& v) { if (v.sp.type == SI::CameraEndpoint) return prim(s, v).camera->pdf_position(v.sp.geom); return prim(s, v).light->pdf_position(v.sp.geom, light_at(s, v.sp.primitive).T) * psel(s); }
double pray(const Scene* s, const Vert& v, Vec3 wo) { if (v.sp.type == SI::CameraEndpoint) return prim(s, v).camera->pdf_ray(v.sp.geom, wo); return prim(s, v).light->pdf_ray(v.sp.geom, wo, light_at(s, v.sp.primitive).T, false) * psel(s); }

// vs[0] is the light vertex, vs[n-1] the camera vertex
struct Ref {
    const Scene* s; const std::vector<Vert>& vs; int n;
    Ref(const Scene* s_, const std::vector<Vert>& v) : s(s_), vs(v), n(int(v.size())) {}
    Vec3 d(int i, int j) const { return j < 0 || j >= n ? Vec3(0) : dirn(vs[i].sp.geom, vs[j].sp.geom); }
    // Contribution with the first s vertices treated as coming from the light
    Vec3 f(int k) const {
        Vec3 r(1);
        for (int i = 0; i < n; i++) {
            const bool L = i < k; const bool conn = i == k - 1 || i == k;
            // towards the light is i-1, towards the camera is i+1
            if (i == 0 && k == 0) { r *= fs(s, vs[0], {}, d(0, 1), TransDir::LE, true); continue; }
            if (i == n - 1 && k == n) { r *= fs(s, vs[n - 1], {}, d(n - 1, n - 2), TransDir::EL, true); continue; }
            if (k == 0 && i == 1 && n > 1 && false) continue;
            const bool delta = k > 0 && k < n && conn;
            r *= L ? fs(s, vs[i], d(i, i - 1), d(i, i + 1), TransDir::LE, delta) : fs(s, vs[i], d(i, i + 1), d(i, i - 1), TransDir::EL, delta);
        }
        for (int i = 0; i + 1 < n; i++) r *= G(vs[i].sp.geom, vs[i + 1].sp.geom);
        return r;
    }
    bool samplable(int k) const {
        if (k == 0) return !vs[0].sp.geom.degenerated && !is_spec(s, vs[0]);
        if (k == n) return !vs[n - 1].sp.geom.degenerated && !is_spec(s, vs[n - 1]);
        if (k == 1 && !connectable(s, vs[0])) return false;
        if (k == n - 1 && !connectable(s, vs[n - 1])) return false;
        return !is_spec(s, vs[k - 1]) && !is_spec(s, vs[k]);
    }
    // Density of the l vertices starting from an end (step +1 from the light, -1 from the camera), area measure
    double sub(int l, bool L) const {
        if (l == 0) return 1;
        const int st = L ? 1 : -1, o = L ? 0 : n - 1; int i = 0; double p;
        if (connectable(s, vs[o])) p = ppos(s, vs[o]);
        else { p = pray(s, vs[o], d(o, o + st)) * G(vs[o].sp.geom, vs[o + st].sp.geom) * pcomp(s, vs[o + st], -d(o, o + st)); i = 1; }
        for (; i < l - 1; i++) {
            const int a = o + st * i, b = a + st;
            const Vec3 wi = i == 0 ? Vec3(0) : d(a, a - st), wo = d(a, b);
            p *= pdir(s, vs[a], wi, wo) * G(vs[a].sp.geom, vs[b].sp.geom) * pcomp(s, vs[b], -wo);
        }
        return p;
    }
    double pdf(int k) const { return samplable(k) ? sub(k, true) * sub(n - k, false) : 0; }
};

std::string str(const Scene* s, const std::vector<Vert>& vs) {
    std::ostringstream o;
    for (auto& v : vs) { static const char* nm = ""; (void)nm; const auto t = v.sp.type; o << (t == SI::CameraEndpoint ? "E" : t == SI::LightEndpoint ? "L" : t == SI::MediumInteraction ? "M" : is_spec(s, v) ? "S" : "D") << (v.sp.geom.infinite ? "inf" + s6(v.sp.geom.wo) : s6(v.sp.geom.p)) << " "; }
    return o.str();
}
// Grazing or nearly coincident configurations amplify rounding beyond the tolerance.
bool well_posed(const std::vector<Vert>& vs) {
    for (size_t i = 0; i + 1 < vs.size(); i++) {
        const auto& a = vs[i].sp.geom; const auto& b = vs[i + 1].sp.geom; if (a.infinite && b.infinite) return false;
        if (!a.infinite && !b.infinite && len(b.p - a.p) < 1e-2) return false;
        const Vec3 d = dirn(a, b);
        for (auto* g : { &a, &b }) if (!g->degenerated && !g->infinite && (std::fabs(dot_(g->n, d)) < 1e-3 || std::fabs(dot_(g->gn, d)) < 1e-3)) return false;
    }
    return true;
}

double dev(double m, int n) { m = std::min(1., std::max(0., m)); return std::sqrt(2 * 30. * m * (1 - m) / n) + 30. / (1.5 * n); }

// Distance sampling and transmittance between scene points inside a medium
void medium(Ctx& c, const TScene& ts) {
    const Scene* s = ts.scene; Rng rng(int(c.raw(1u << 30)));
    const auto ctx = [&](const std::string& m) { return m + " [" + ts.desc + "]"; };
    const auto* md = s->node_at(s->medium_node()).primitive.medium;
    const auto tau = [&](Vec3 o, Vec3 d, double t) {   // homogeneous: length inside of the bound
        double lo = 0, hi = t; for (int i = 0; i < 3; i++) { if (d[i] == 0) { if (o[i] < ts.blo[i] || o[i] > ts.bhi[i]) return 0.; continue; } double a = (ts.blo[i] - o[i]) / d[i], b = (ts.bhi[i] - o[i]) / d[i]; if (a > b) std::swap(a, b); lo = std::max(lo, a); hi = std::min(hi, b); }
        return hi > lo ? ts.density * (hi - lo) : 0.;
    };
    const auto gpoint = [&]() -> SI {
        for (int k = 0; k < 4; k++) { const auto r = lp::sample_primary_ray(rng, s, TransDir::EL); if (!r) continue; if (c.chance(.3)) return r->sp; const auto h = s->intersect(r->ray()); if (h && !h->geom.infinite) return *h; }
        return SI::make_medium_interaction(s->medium_node(), PointGeometry::make_degenerated(gen_vec(c, 2)));
    };
    for (int k = 0; k < 4; k++) {
        const SI a = gpoint(); const Vec3 d = gen_dir(c);
        const auto hit = s->intersect(Ray{ a.geom.p, d }); const double D = hit && !hit->geom.infinite ? len(hit->geom.p - a.geom.p) : 1e10;
        const int n = 1500; int coll = 0;
        for (int i = 0; i < n; i++) {
            const auto q = lp::sample_distance(rng, s, a, d);
            if (!q) { c.check(!hit, "distance-none", [&] { return ctx("no interaction sampled although the ray meets something"); }); continue; }
            if (q->sp.type == SI::MediumInteraction) {
                coll++; const double t = dot_(q->sp.geom.p - a.geom.p, d);
                c.check(q->sp.primitive == s->medium_node() && q->sp.geom.degenerated && t >= -1e-9 && t <= D + 1e-6 && len(q->sp.geom.p - (a.geom.p + d * t)) < 1e-6 && (ts.mixed_albedo ? q->weight.x > .19 && q->weight.y > .19 && q->weight.z > .19 && q->weight.x < .96 && q->weight.y < .96 && q->weight.z < .96 : near(q->weight, ts.albedo, 1e-6)), "collision", [&] { return ctx("collision at distance " + S(t) + " of " + S(D) + " with weight " + S(q->weight)); });
                if (i < 40) {
                    const auto e = lp::sample_direction(rng, s, q->sp, -d, 0, TransDir::EL);
                    if (e) { const Vec3 f = lp::eval_contrb_direction(s, q->sp, -d, e->wo, 0, TransDir::EL, false); const double p = lp::pdf_direction(s, q->sp, -d, e->wo, 0, false);
                        c.check(near(e->weight * p, f, 1e-6) && near(f, md->phase()->eval(q->sp.geom, -d, e->wo), 1e-9), "phase-weight", [&] { return ctx("scattering in the medium: weight " + S(e->weight) + " density " + S(p) + " value " + S(f)); }); }
                    const auto cs = lp::sample_component(rng, s, q->sp, -d); c.check(cs.weight == 1 && lp::pdf_component(s, q->sp, -d, cs.comp) == 1, "phase-component", [&] { return ctx("component in the medium"); });
                }
            } else {
                c.check(hit && q->sp.type == hit->type && q->sp.primitive == hit->primitive && (hit->geom.infinite || near(q->sp.geom.p, hit->geom.p, 1e-9)) && q->weight == Vec3(1), "distance-surface", [&] { return ctx("surface interaction that is not the next surface, or weight " + S(q->weight)); });
            }
        }
        // chance of reaching the surface = transmittance
        double T = 0;
        if (ts.homog) T = std::exp(-tau(a.geom.p, d, D));
        else { Rng r2(int(c.raw(1u << 30))); for (int i = 0; i < n; i++) T += md->eval_transmittance(r2, { a.geom.p, d }, 0, D).x / n; }
        const double m = double(coll) / n;
        if (hit || ts.homog) c.check(std::fabs(1 - m - T) < dev(T, n) * (ts.homog ? 1 : 2) + 1e-3, "reach", [&] { return ctx("the next surface is reached in a fraction " + S(1 - m) + " of " + std::to_string(n) + " samples, transmittance is " + S(T)); });
        if (coll && coll < n) c.nontrivial = true;
        const SI b = gpoint(); if (len(b.geom.p - a.geom.p) < 1e-2) continue;
        const Vec3 w = unit(b.geom.p - a.geom.p); const bool vis = s->visible(a, b);
        double t2 = 0; for (int i = 0; i < (ts.homog ? 1 : n); i++) { const Vec3 q = lp::eval_transmittance(rng, s, a, b); c.check(sane(q + Vec3(1e-12)) && (vis || zero(q)), "transmittance-visibility", [&] { return ctx("transmittance " + S(q) + " where visibility is " + std::to_string(vis)); }); t2 += q.x / (ts.homog ? 1 : n); }
        if (vis && ts.homog) { const double want = std::exp(-tau(a.geom.p, w, len(b.geom.p - a.geom.p))); c.check(near(t2, want, 1e-7), "transmittance", [&] { return ctx("transmittance " + S(t2) + ", expected " + S(want)); }); c.label("transmittance"); }
    }
    c.label("medium");
}

// User-defined medium: a tinted ball of radius R; distances are sampled with weights of both outcomes different from one
struct Ball : public lm::Medium {
    double R, k; Vec3 tint; Component::Ptr<lm::Phase> ph;
    static std::optional<DistanceSample>& last() { static thread_local std::optional<DistanceSample> l; return l; }
    void construct(const Json& p) override { R = lm::json::value<Float>(p, "R"); k = lm::json::value<Float>(p, "k"); tint = lm::json::value<Vec3>(p, "tint"); ph = lm::comp::create<lm::Phase>("phase::isotropic", "", {}); }
    bool chord(Ray r, double& t0, double& t1) const { const double b = dot_(r.o, r.d), q = b * b - dot_(r.o, r.o) + R * R; if (q <= 0) return false; t0 = std::max(t0, -b - std::sqrt(q)); t1 = std::min(t1, -b + std::sqrt(q)); return t1 > t0; }
    Vec3 T(double l) const { return Vec3(std::exp(-k * l * tint.x), std::exp(-k * l * tint.y), std::exp(-k * l * tint.z)); }
    std::optional<DistanceSample> sample_distance(Rng& rng, Ray ray, Float tmin, Float tmax) const override {
        last() = std::nullopt; double a = tmin, b = tmax; if (!chord(ray, a, b)) return {};
        if (rng.u() < .4) last() = DistanceSample{ ray.o + ray.d * tmax, T(b - a) / .6, false };
        else { const double t = a + (b - a) * rng.u(); last() = DistanceSample{ ray.o + ray.d * t, T(t - a) * tint * k * (b - a) / .4, true }; }
        return last();
    }
    Vec3 eval_transmittance(Rng&, Ray ray, Float tmin, Float tmax) const override { double a = tmin, b = tmax; return chord(ray, a, b) ? T(b - a) : Vec3(1); }
    bool is_emitter() const override { return false; }
    const lm::Phase* phase() const override { return ph.get(); }
};
LM_COMP_REG_IMPL(Ball, "medium::verif_ball");
void ball(Ctx& c, const TScene& ts) {
    Scene* s = ts.scene; const double R = c.logreal(.5, 1e5), k = c.real(.1, 3) / R; const Vec3 tint = gen_color(c, .2, 1);
    s->add_child(0, s->create_primitive_node({ {"medium", asset("ball", "medium::verif_ball", { {"R", R}, {"k", k}, {"tint", J(tint)} })} })); s->build();
    const auto* md = static_cast<const Ball*>(s->node_at(s->medium_node()).primitive.medium); Rng rng(int(c.raw(1u << 30)));
    const auto ctx = [&](const std::string& m) { return m + " [medium in a ball of radius " + S(R) + "; " + ts.desc + "]"; };
    for (int i = 0; i < 40; i++) {
        const auto r = lp::sample_primary_ray(rng, s, TransDir::EL); if (!r) continue; const auto h = s->intersect(r->ray());
        SI a = r->sp; Vec3 d = r->wo; if (h && !h->geom.infinite && c.coin()) { a = *h; d = gen_dir(c); if (std::fabs(dot_(d, a.geom.n)) < 1e-3) continue; } const auto nx = s->intersect(Ray{ a.geom.p, d });
        const double D = nx && !nx->geom.infinite ? len(nx->geom.p - a.geom.p) : 1e10;
        const auto q = lp::sample_distance(rng, s, a, d); const auto& l = Ball::last();
        double t0 = 0, t1 = D; const bool in = md->chord({ a.geom.p, d }, t0, t1) && t1 - t0 > 1e-6 * (1 + R); if (t1 > t0 && !in) continue;
        c.check(bool(l) == in, "user-medium-asked", [&] { return ctx("medium asked for a distance on a wrong part of the ray"); });
        if (l && l->medium) { c.check(q && q->sp.type == SI::MediumInteraction && q->sp.geom.p == l->p && q->weight == l->weight, "user-medium-collision", [&] { return ctx("collision at " + S(l->p) + " with weight " + S(l->weight) + " is reported differently"); }); c.label("ball-collision"); }
        else {
            c.check(bool(q) == bool(nx) && (!q || (q->sp.type == nx->type && q->sp.primitive == nx->primitive && q->sp.geom.infinite == nx->geom.infinite)), "user-medium-surface", [&] { return ctx("no collision, but the next surface is not reported"); });
            if (q) { const Vec3 w = l ? md->T(t1 - t0) / .6 : Vec3(1); c.check(near(q->weight, w, 1e-6), "user-medium-weight", [&] { return ctx("surface reached with weight " + S(q->weight) + ", the medium gave " + S(w)); }); c.label(l ? "ball-surface" : "ball-missed"); }
        }
        if (!nx || (!nx->geom.infinite && D < 1e-2)) continue;
        // the surface seen, or the environment
        const SI e = nx->geom.infinite ? nx->as_type(SI::LightEndpoint) : *nx; if (!s->visible(a, e)) continue;
        const Vec3 T = lp::eval_transmittance(rng, s, a, e), w = in ? md->T(t1 - t0) : Vec3(1);
        c.check(near(T, w, 1e-6), "user-medium-transmittance", [&] { return ctx("transmittance " + S(T) + ", expected " + S(w)); }); c.label(nx->geom.infinite ? "ball-T-environment" : "ball-T");
        c.nontrivial = true;
    }
}

// Cell frequencies: what the path functions draw against what independent random numbers give
void freq(Ctx& c, const TScene& ts) {
    const Scene* s = ts.scene; Rng rng(int(c.raw(1u << 30))), own(int(c.raw(1u << 30)));
    const auto ctx = [&](const std::string& m) { return m + " [" + ts.desc + "]"; };
    const int n = 2500; const auto U = [&] { return own.u(); }; const auto U2 = [&] { const double a = own.u(), b = own.u(); return Vec2(a, b); };
    using Cells = std::map<std::string, int>;
    const auto cmp = [&](const Cells& a, const Cells& b, const char* key, const std::string& what) {
        Cells all = a; for (auto& e : b) all[e.first] += e.second;
        for (auto& e : all) {
            const double x = a.count(e.first) ? a.at(e.first) : 0, y = b.count(e.first) ? b.at(e.first) : 0;
            c.check(std::fabs(x - y) / n < 2 * dev(e.second / 2. / n, n), key, [&] { return ctx(what + ": cell " + e.first + " drawn " + std::to_string(int(x)) + " times of " + std::to_string(n) + ", " + std::to_string(int(y)) + " times with independent numbers"); });
        }
        c.label(key);
    };
    const Vec3 ax[2] = { gen_dir(c), gen_dir(c) };
    std::map<int, TScene::AL> al; for (auto& a : ts.areas) al[a.prim] = a;
    const auto oct = [&](Vec3 w) { return std::string(w.x > 0 ? "+" : "-") + (w.y > 0 ? "+" : "-") + (w.z > 0 ? "+" : "-"); };
    const auto cell = [&](int prim, const PointGeometry& g, Vec3 wo, bool dir) {
        std::string r = std::to_string(prim);
        if (!g.infinite && al.count(prim)) for (auto& a : ax) r += dot_(g.p - al[prim].o, a) > 0 ? "a" : "b";
        if (dir) r += oct(wo);
        return r;
    };
    const int nl = s->num_lights(); const auto pick = [&] { return s->light_primitive_index_at(std::min(nl - 1, int(U() * nl))); };
    const auto light = [&](const Scene::LightPrimitiveIndex& l) { return s->node_at(l.index).primitive.light; };
    // emitted rays
    { Cells a, b; for (int i = 0; i < n; i++) {
        if (const auto r = lp::sample_primary_ray(rng, s, TransDir::LE)) a[cell(r->sp.primitive, r->sp.geom, r->wo, true)]++;
        const auto l = pick(); const Vec2 x = U2(), z = U2(); const double y = U();
        if (const auto r = light(l)->sample_ray({ x, y, z }, l.global_transform)) b[cell(l.index, r->geom, r->wo, true)]++;
      } cmp(a, b, "freq-ray", "emitted rays (light, half, octant)"); }
    if (ts.n_dir + ts.n_env == 0) {
        Cells a, b; for (int i = 0; i < n; i++) {
            if (const auto r = lp::sample_position(rng, s, TransDir::LE)) a[cell(r->sp.primitive, r->sp.geom, {}, false)]++;
            const auto l = pick(); const Vec2 x = U2(); const double y = U();
            if (const auto r = light(l)->sample_position({ x, y }, l.global_transform)) b[cell(l.index, r->geom, {}, false)]++;
        }
        cmp(a, b, "freq-position", "positions on lights (light, half)");
        for (auto& q : al) if (!ts.twins) for (int h = 0; h < 4; h++) { // each half of an emitter is as likely as the other
            int k[2] = { 0, 0 }; for (auto& e : a) if (e.first.rfind(std::to_string(q.first) + "a", 0) == 0) k[0] += e.second; else if (e.first.rfind(std::to_string(q.first) + "b", 0) == 0) k[1] += e.second;
            for (int m : k) c.check(std::fabs(double(m) / n - .5 / nl) < dev(.5 / nl, n), "freq-half", [&] { return ctx("half of an emitter drawn " + std::to_string(m) + " times of " + std::to_string(n) + ", of " + std::to_string(nl) + " lights"); });
        }
    }
    // camera rays: uniform over the image
    { const auto* cam = s->node_at(s->camera_node()).primitive.camera; int q[4] = {}, m = 0; for (int i = 0; i < n; i++) { const auto r = lp::sample_primary_ray(rng, s, TransDir::EL); if (!r) continue; const auto rp = cam->raster_position(r->wo); if (!rp) continue; q[(rp->x > .5) + 2 * (rp->y > .5)]++; m++; }
      c.check(m > n - 5, "freq-camera-none", [&] { return ctx("camera rays: only " + std::to_string(m) + " of " + std::to_string(n) + " are in the image"); });
      for (int k : q) c.check(std::fabs(double(k) / n - .25) < dev(.25, n) + .002, "freq-camera", [&] { return ctx("a quarter of the image gets " + std::to_string(k) + " of " + std::to_string(n) + " camera rays"); }); }
    for (int t = 0; t < 3; t++) {
        const auto r = lp::sample_primary_ray(rng, s, TransDir::EL); if (!r) continue; const auto hit = s->intersect(r->ray()); if (!hit || hit->geom.infinite) continue;
        { Cells a, b; for (int i = 0; i < n; i++) {
            if (const auto e = lp::sample_direct(rng, s, *hit, TransDir::LE)) a[cell(e->sp.primitive, e->sp.geom, e->wo, true)]++;
            const auto l = pick(); const Vec2 x = U2(), z = U2(); const double y = U();
            if (const auto e = light(l)->sample_direct({ x, y, z }, hit->geom, l.global_transform)) b[cell(l.index, e->geom, e->wo, true)]++;
          } cmp(a, b, "freq-direct", "direct samples (light, half, octant)"); }
        const Vec3 wi = -r->wo; if (std::fabs(dot_(hit->geom.n, wi)) < 1e-3 || std::fabs(dot_(hit->geom.gn, wi)) < 1e-3) continue;
        const auto* mat = s->node_at(hit->primitive).primitive.material;
        std::map<int, int> comps; for (int i = 0; i < n; i++) comps[lp::sample_component(rng, s, *hit, wi).comp]++;
        double sum = 0;
        for (auto& e : comps) { const double p = mat->pdf_component(e.first, hit->geom, wi); sum += p; c.check(std::fabs(double(e.second) / n - p) < dev(p, n), "freq-component", [&] { return ctx("component " + std::to_string(e.first) + " drawn " + std::to_string(e.second) + " times of " + std::to_string(n) + ", probability " + S(p)); }); }
        for (auto& e : comps) {
            const TransDir td = c.coin() ? TransDir::EL : TransDir::LE;
            const Vec3 gn = hit->geom.n; Vec3 u = std::fabs(gn.x) < .6 ? Vec3(1, 0, 0) : Vec3(0, 1, 0); u = unit(cross_(u, gn)); const Vec3 v = cross_(gn, u), m = 2 * dot_(gn, wi) * gn - wi;
            const auto dc = [&](Vec3 w) { return std::string(dot_(w, gn) > 0 ? "+" : "-") + (dot_(w, u) > 0 ? "+" : "-") + (dot_(w, v) > 0 ? "+" : "-") + (dot_(w, m) > .9 ? "p" : dot_(w, m) > .5 ? "q" : "r"); };
            Cells a, b; for (int i = 0; i < n; i++) {
                if (const auto d = lp::sample_direction(rng, s, *hit, wi, e.first, td)) a[dc(d->wo)]++;
                const Vec2 x = U2(), y = U2(); if (const auto d = mat->sample_direction({ x, y }, hit->geom, wi, e.first, Material::TransDir(td))) b[dc(d->wo)]++;
            }
            cmp(a, b, "freq-direction", "scattered directions (octant, lobe) of component " + std::to_string(e.first));
        }
    }
    c.nontrivial = nl > 1;
}

// An emitter that occurs twice under transforms of different scale
void instances(Ctx& c) {
    lm::reset(); asset("acc", "accel::sahbvh", {}); auto* s = get<Scene>(asset("scene", "scene::default", { {"accel", "$.assets.acc"} }));
    const auto mesh = asset("m", "mesh::raw", quad_mesh(c.real(.3, 1), c.real(.3, 1)).json()), mat = asset("mat", "material::diffuse", { {"Kd", J(Vec3(.5))} });
    const int n = s->create_primitive_node({ {"mesh", mesh}, {"material", mat}, {"light", asset("l", "light::area", { {"Ke", J(gen_color(c, .2, 4))}, {"mesh", mesh} })} });
    const double k = c.chance(.3) ? 1 : c.logreal(.3, 3);
    for (int i = 0; i < 2; i++) { const int g = s->create_group_node(mat_mul(m_translate(Vec3(i ? 3 : -3, 0, 0)), m_scale(Vec3(i ? k : 1)))); s->add_child(g, n); s->add_child(0, g); }
    s->add_child(0, s->create_primitive_node({ {"camera", asset("camera", "camera::pinhole", { {"position", J(Vec3(0, 0, 9))}, {"center", J(Vec3(0))}, {"up", Json::array({ 0, 1, 0 })}, {"vfov", 40}, {"aspect", 1} })} }));
    s->build(); Rng rng(int(c.raw(1u << 30)));
    for (int i = 0; i < 20; i++) {
        const auto r = lp::sample_primary_ray(rng, s, TransDir::LE); if (!r || std::fabs(dot_(r->sp.geom.n, r->wo)) < 1e-4) continue;
        const Vec3 f = lp::eval_contrb_direction(s, r->sp, {}, r->wo, 0, TransDir::LE, false); const double p = lp::pdf_primary_ray(s, r->sp, r->wo, false);
        if (!near(r->weight * p, f, 1e-5, 1e-12)) c.fail(k == 1 ? "primary-ray-weight" : "light-instances", "emitter placed twice, second time scaled by " + S(k) + ": weight " + S(r->weight) + " of an emitted ray times density " + S(p) + " is not the emission " + S(f));
    }
    c.nontrivial = true; c.label("instances");
}

void run(Ctx& c) {
    if (c.chance(.02)) { instances(c); return; }
    TOpt o; const bool fr = c.chance(.06); const int mode = c.weighted({ 3, 3, 2 });   // 0: anything 1: flat normals without refraction 2: rough surfaces only
    if (mode == 1) { o.glass = false; o.smooth = false; } if (mode == 2) { o.spec = o.glass = false; }
    o.medium = !fr && c.chance(.15); o.small_lights = o.twins = o.env_tex = true;
    const TScene ts = gen_tscene(c, o); const Scene* s = ts.scene;
    c.note(ts.desc, "\n");
    if (o.medium) { medium(c, ts); return; }
    if (fr) { freq(c, ts); return; }
    if (c.chance(.05)) { ball(c, ts); return; }
    const auto ctx = [&](const std::string& m) { return m + " [" + ts.desc + "]"; };
    Rng rng(int(c.raw(1u << 30)));
    const double tol = 1e-5;

    // --- local identities ---------------------------------------------------------------------------
    for (int k = 0; k < 16; k++) for (const TransDir td : { TransDir::EL, TransDir::LE }) {
        const char* tn = td == TransDir::EL ? "camera" : "light";
        const auto r = lp::sample_primary_ray(rng, s, td);
        if (r) {
            const auto type = td == TransDir::EL ? SI::CameraEndpoint : SI::LightEndpoint;
            c.check(r->sp.type == type && near(len(r->wo), 1., 1e-9) && sane(r->weight), "primary-ray", [&] { return ctx(std::string(tn) + " ray: type, direction " + S(r->wo) + " or weight " + S(r->weight)); });
            const Vert v{ r->sp, 0 };
            if (r->sp.geom.degenerated || r->sp.geom.infinite || std::fabs(dot_(r->sp.geom.n, r->wo)) > 1e-4) {
                const Vec3 f = lp::eval_contrb_direction(s, r->sp, {}, r->wo, 0, td, false); const double p = lp::pdf_primary_ray(s, r->sp, r->wo, false);
                c.check(near(f, fs(s, v, {}, r->wo, td, false), 1e-12) && near(p, pray(s, v, r->wo), 1e-9), "primary-ray-eval", [&] { return ctx(std::string(tn) + " ray: contribution " + S(f) + " or density " + S(p) + " differ from those of the component"); });
                c.check(near(r->weight * p, f, tol, 1e-12), "primary-ray-weight", [&] { return ctx(std::string(tn) + " ray: weight " + S(r->weight) + " times density " + S(p) + " is not the contribution " + S(f)); });
            }
            const Ray ry = r->ray(); c.check(ry.o == r->sp.geom.p && ry.d == r->wo, "primary-ray-ray", [&] { return ctx("ray of the sample"); });
        }
        // positions: light sources at infinity have no position distribution
        if (td == TransDir::EL || ts.n_dir + ts.n_env == 0) {
            const auto p = lp::sample_position(rng, s, td);
            if (p) {
                const double q = lp::pdf_position(s, p->sp);
                c.check(near(q, ppos(s, { p->sp, 0 }), 1e-9), "position-density", [&] { return ctx(std::string(tn) + " position: density " + S(q) + ", expected " + S(ppos(s, { p->sp, 0 }))); });
                c.check(near(p->weight * q, Vec3(1), tol), "position-weight", [&] { return ctx(std::string(tn) + " position: weight " + S(p->weight) + " times density " + S(q) + " is not one"); });
                const auto d = lp::sample_direction(rng, s, p->sp, {}, 0, td);
                if (d && (p->sp.geom.degenerated || std::fabs(dot_(p->sp.geom.n, d->wo)) > 1e-4)) {
                    const Vec3 f = lp::eval_contrb_direction(s, p->sp, {}, d->wo, 0, td, false); const double pd = lp::pdf_direction(s, p->sp, {}, d->wo, 0, false);
                    c.check(near(d->weight * pd, f, tol, 1e-12), "endpoint-direction", [&] { return ctx(std::string(tn) + " direction: weight " + S(d->weight) + " times density " + S(pd) + " is not the contribution " + S(f)); });
                    c.check(near(lp::pdf_primary_ray(s, p->sp, d->wo, false), q * pd, tol), "ray-factors", [&] { return ctx(std::string(tn) + " ray: density is not the product of position and direction density"); });
                }
            }
        }
        if (!r) continue;
        const auto hit = s->intersect(r->ray());
        const auto ds = lp::sample_distance(rng, s, r->sp, r->wo);
        c.check(bool(ds) == bool(hit) && (!hit || (ds->sp.geom.infinite == hit->geom.infinite && (hit->geom.infinite || near(ds->sp.geom.p, hit->geom.p, 1e-12)) && ds->weight == Vec3(1))), "vacuum-distance", [&] { return ctx("in vacuum, distance sampling differs from the next surface"); });
        if (!hit || hit->geom.infinite) continue;
        const Vec3 wi = -r->wo; if (std::fabs(dot_(hit->geom.n, wi)) < 1e-3 || std::fabs(dot_(hit->geom.gn, wi)) < 1e-3) continue;
        const auto* mat = s->node_at(hit->primitive).primitive.material;
        const auto cs = lp::sample_component(rng, s, *hit, wi);
        const double pc = lp::pdf_component(s, *hit, wi, cs.comp);
        c.check(near(cs.weight * pc, 1., tol) && near(pc, mat->pdf_component(cs.comp, hit->geom, wi), 1e-12), "component", [&] { return ctx("component " + std::to_string(cs.comp) + ": weight " + S(cs.weight) + " probability " + S(pc)); });
        c.check(lp::is_specular_component(s, *hit, cs.comp) == mat->is_specular_component(cs.comp), "specular", [&] { return ctx("specular flag"); });
        if (const auto rf = lp::reflectance(s, *hit)) c.check(sane(*rf) && near(*rf, mat->reflectance(hit->geom), 1e-12), "reflectance", [&] { return ctx("reflectance " + S(*rf)); });
        const Vert v{ *hit, cs.comp };
        for (int q = 0; q < 4; q++) {
            const auto d = lp::sample_direction(rng, s, *hit, wi, cs.comp, td);
            if (!d || std::fabs(dot_(hit->geom.n, d->wo)) < 1e-3 || std::fabs(dot_(hit->geom.gn, d->wo)) < 1e-3) continue;
            const Vec3 f = lp::eval_contrb_direction(s, *hit, wi, d->wo, cs.comp, td, false); const double p = lp::pdf_direction(s, *hit, wi, d->wo, cs.comp, false);
            c.check(near(f, fs(s, v, wi, d->wo, td, false), 1e-9) && near(p, pdir(s, v, wi, d->wo), 1e-12), "surface-eval", [&] { return ctx("surface contribution " + S(f) + " (expected " + S(fs(s, v, wi, d->wo, td, false)) + ") or density " + S(p)); });
            c.check(sane(d->weight) && near(d->weight * p, f, tol, 1e-9), "surface-weight", [&] { return ctx("surface direction: weight " + S(d->weight) + " times density " + S(p) + " is not the contribution " + S(f)); });
            c.label("surface-direction");
        }
        // direct sampling of either endpoint from the surface point or a free point
        for (const TransDir dd : { TransDir::LE, TransDir::EL }) {
            const SI rec = c.chance(.2) ? SI::make_medium_interaction(0, PointGeometry::make_degenerated(hit->geom.p + hit->geom.n * .3)) : *hit;
            const auto e = lp::sample_direct(rng, s, rec, dd); if (!e) continue;
            c.check(e->sp.type == (dd == TransDir::EL ? SI::CameraEndpoint : SI::LightEndpoint) && sane(e->weight), "direct", [&] { return ctx("direct sample: type or weight " + S(e->weight)); });
            if (!e->sp.geom.infinite) c.check(near(e->wo, unit(rec.geom.p - e->sp.geom.p), 0, 1e-9), "direct-direction", [&] { return ctx("direct sample does not point at the receiver"); });
            const double cr = rec.geom.degenerated ? 1 : std::fabs(dot_(rec.geom.n, e->wo)), ce = e->sp.geom.degenerated || e->sp.geom.infinite ? 1 : std::fabs(dot_(e->sp.geom.n, e->wo));
            if (cr < 1e-3 || ce < 1e-3) continue;
            const double p = lp::pdf_direct(s, rec, e->sp, e->wo, false); const Vec3 f = lp::eval_contrb_direction(s, e->sp, {}, e->wo, 0, dd, false);
            const auto& pr = s->node_at(e->sp.primitive).primitive;
            const double want = dd == TransDir::EL ? pr.camera->pdf_direct(rec.geom, e->sp.geom, e->wo) : pr.light->pdf_direct(rec.geom, e->sp.geom, light_at(s, e->sp.primitive).T, e->wo, false) * psel(s);
            c.check(near(p, want, 1e-9), "direct-density", [&] { return ctx("direct density " + S(p) + ", expected " + S(want)); });
            c.check(near(e->weight * p, f, tol, 1e-9), "direct-weight", [&] { return ctx(std::string(dd == TransDir::EL ? "camera" : "light") + " direct sample: weight " + S(e->weight) + " times density " + S(p) + " is not the contribution " + S(f)); });
            const bool vis = s->visible(rec, e->sp);
            const Vec3 T = lp::eval_transmittance(rng, s, rec, e->sp);
            c.check(T == Vec3(vis ? 1 : 0), "vacuum-transmittance", [&] { return ctx("in vacuum, transmittance " + S(T) + " where visibility is " + std::to_string(vis)); });
            c.label(vis ? "direct-visible" : "direct-occluded");
        }
    }

    // --- whole paths ---------------------------------------------------------------------------------
    const int walks = 12; bool conn_any = false;
    for (int w = 0; w < walks; w++) {
        Path sub[2]; std::vector<Vec3> alpha[2];       // weight of the first k vertices
        const bool own = w % 2 == 0;
        const int maxv = c.in(1, 6);
        for (int e = 0; e < 2; e++) {
            const TransDir td = e == 0 ? TransDir::LE : TransDir::EL;
            if (!own) {
                sub[e] = lp::sample_subpath(rng, s, maxv, td);
            } else {
                // Walk from the sampling functions, keeping the weights they report
                alpha[e].push_back(Vec3(1));
                const auto r = lp::sample_primary_ray(rng, s, td); if (!r) continue;
                sub[e].vs.push_back({ r->sp, 0 });
                alpha[e].push_back(connectable(s, sub[e].vs[0]) ? Vec3(1 / ppos(s, sub[e].vs[0])) : Vec3(-1));
                Ray ray = r->ray(); Vec3 a = r->weight;
                while (sub[e].num_verts() < maxv) {
                    const auto h = s->intersect(ray); if (!h) break;
                    const auto sc = lp::sample_component(rng, s, *h, -ray.d);
                    a *= sc.weight; sub[e].vs.push_back({ *h, sc.comp }); alpha[e].push_back(a);
                    if (h->geom.infinite) break;
                    const auto d = lp::sample_direction(rng, s, *h, -ray.d, sc.comp, td); if (!d || zero(d->weight)) break;
                    a *= d->weight; ray = { h->geom.p, d->wo };
                }
            }
            const auto& vs = sub[e].vs;
            c.check(int(vs.size()) <= maxv, "subpath-length", [&] { return ctx("subpath of " + std::to_string(vs.size()) + " vertices, at most " + std::to_string(maxv) + " asked for"); });
            if (!vs.empty()) c.check(vs[0].sp.type == (e == 0 ? SI::LightEndpoint : SI::CameraEndpoint), "subpath-endpoint", [&] { return ctx("subpath does not start at its endpoint"); });
            for (size_t i = 1; i < vs.size(); i++) {
                // the direction actually sampled goes from the (representative) position of the previous vertex
                const auto& A = vs[i - 1].sp.geom; const auto& B = vs[i].sp.geom; const Vec3 d = dirn(A, B);
                c.check(!A.infinite || i == 1, "subpath-infinite", [&] { return ctx("subpath continues beyond a vertex at infinity"); });
                const auto h = s->intersect(Ray{ A.p, d });
                const bool graz = !B.infinite && !B.degenerated && std::fabs(dot_(B.gn, d)) < 1e-3;
                if (!graz && (A.infinite || B.infinite || len(B.p - A.p) > 1e-2)) c.check(h && h->geom.infinite == B.infinite && (B.infinite || len(h->geom.p - B.p) < 1e-5), "subpath-hit", [&] { return ctx("vertex " + std::to_string(i) + " of a subpath is not the first surface seen from the vertex before: " + str(s, vs)); });
                c.check(pcomp(s, vs[i], -d) > 0, "subpath-component", [&] { return ctx("sampled component " + std::to_string(vs[i].comp) + " has probability 0"); });
                if (!is_spec(s, vs[i - 1]) || vs[i - 1].sp.type != SI::SurfaceInteraction) { if (!(i == 1 && A.infinite)) c.check(pdir(s, vs[i - 1], i > 1 ? dirn(A, vs[i - 2].sp.geom) : Vec3(0), d) > 0 || !well_posed(vs), "subpath-direction", [&] { return ctx("sampled direction has density 0: " + str(s, vs)); }); }
            }
        }
        const int nL = sub[0].num_verts(), nE = sub[1].num_verts();
        for (int a = 0; a <= nL; a++) for (int b = 0; b <= nE; b++) {
            if (a + b < 2) continue;
            const auto full = lp::connect_subpaths(s, sub[0], sub[1], a, b);
            // Can these ends be joined?
            std::vector<Vert> vs; for (int i = 0; i < a; i++) vs.push_back(sub[0].vs[i]); for (int i = b - 1; i >= 0; i--) vs.push_back(sub[1].vs[i]);
            bool can = true;
            if (a == 0) can = !vs[0].sp.geom.degenerated && s->node_at(vs[0].sp.primitive).primitive.light != nullptr;
            else if (b == 0) can = !vs.back().sp.geom.degenerated && vs.back().sp.primitive == s->camera_node();
            else can = !vs[a - 1].sp.geom.infinite && !vs[a].sp.geom.infinite && s->visible(vs[a - 1].sp, vs[a].sp);
            c.check(bool(full) == can, "connect", [&] { return ctx("connecting " + std::to_string(a) + "+" + std::to_string(b) + " vertices " + (full ? "succeeded" : "failed") + ": " + str(s, vs)); });
            if (!full) continue;
            const int n = a + b;
            vs[0].sp = vs[0].sp.as_type(SI::LightEndpoint); vs[n - 1].sp = vs[n - 1].sp.as_type(SI::CameraEndpoint);
            bool same = full->num_verts() == n && full->num_edges() == n - 1;
            for (int i = 0; i < n && same; i++) same = full->vs[i].sp.type == vs[i].sp.type && full->vs[i].sp.primitive == vs[i].sp.primitive && full->vs[i].sp.geom.infinite == vs[i].sp.geom.infinite && full->vs[i].sp.geom.p == vs[i].sp.geom.p && (i == 0 || i == n - 1 || full->vs[i].comp == vs[i].comp);
            c.check(same, "connect-vertices", [&] { return ctx("connected path " + str(s, full->vs) + ", expected " + str(s, vs)); });
            if (!well_posed(vs)) { c.label("ill-posed"); continue; }
            const Ref R(s, full->vs); const auto pth = [&](const std::string& m) { return ctx(m + " on path " + str(s, full->vs)); };
            if (a > 0 && b > 0) conn_any = true;
            // densities, contributions and weights of every strategy
            double sum = 0; int ns = 0; Vec3 f0(-1); int k0 = -1; bool ok_sum = true;
            for (int k = 0; k <= n; k++) {
                const double p = full->pdf_bidir(s, k), q = R.pdf(k);
                c.check(full->is_samplable_bidir(s, k) == R.samplable(k), "samplable", [&] { return pth("samplable with s=" + std::to_string(k)); });
                c.check(near(p, q, tol), "path-density", [&] { return pth("density " + S(p) + ", expected " + S(q) + " with s=" + std::to_string(k)); });
                if (p == 0) continue;
                if (!(p > 1e-150 && p < 1e150)) { ok_sum = false; continue; }
                const Vec3 f = full->eval_measurement_contrb_bidir(s, k), rf = R.f(k), C = full->eval_sampling_weight_bidir(s, k);
                c.check(near(f, rf, tol, 1e-300), "contribution", [&] { return pth("contribution " + S(f) + ", expected " + S(rf) + " with s=" + std::to_string(k)); });
                c.check(sane(C) && near(C * p, f, tol, 1e-300), "weight", [&] { return pth("sampling weight " + S(C) + " times density " + S(p) + " is not the contribution " + S(f) + " with s=" + std::to_string(k)); });
                if (!ts.smooth && !ts.glass) {
                    if (k0 < 0) { f0 = f; k0 = k; }
                    else { c.label("split-pairs"); c.check(near(f, f0, tol, 1e-300), "split", [&] { return pth("contribution " + S(f) + " with s=" + std::to_string(k) + " but " + S(f0) + " with s=" + std::to_string(k0)); }); }
                }
                const double w_ = full->eval_mis_weight(s, k);
                c.check(w_ >= 0 && w_ <= 1 + 1e-9, "mis-range", [&] { return pth("combination weight " + S(w_) + " with s=" + std::to_string(k)); });
                sum += w_; ns++;
                if (!zero(f) && n >= 2) {
                    const Vec3 de = R.d(n - 1, n - 2); const auto rp = s->node_at(s->camera_node()).primitive.camera->raster_position(de);
                    if (rp) { const Vec2 g = full->raster_position(s); c.check(std::fabs(g.x - rp->x) < 1e-9 && std::fabs(g.y - rp->y) < 1e-9, "raster", [&] { return pth("raster position " + S(g) + ", expected " + S(*rp)); }); }
                    else c.check(false, "raster-none", [&] { return pth("the path contributes but has no raster position"); });
                }
            }
            if (ns && ok_sum) c.check(near(sum, 1., 1e-6), "mis-sum", [&] { return pth("combination weights of " + std::to_string(ns) + " strategies add up to " + S(sum)); });
            if (ns > 1) c.label("multi-strategy");
            c.label("path-verts-" + std::to_string(n));
            // weights as sampled
            if (own && R.pdf(a) > 0) {
                const Vec3 al = alpha[0][a], be = alpha[1][b]; if (al.x < 0 || be.x < 0) continue;
                Vec3 cst;
                // the component of the vertex that ended up as light endpoint is not part of the path
                double fix = 1; if (a == 0 && b > 1 && sub[1].vs[b - 1].sp.type == SI::SurfaceInteraction) fix = pcomp(s, sub[1].vs[b - 1], -R.d(1, 0));
                if (a == 0) cst = fs(s, full->vs[0], {}, R.d(0, 1), TransDir::LE, true);
                else cst = fs(s, full->vs[a - 1], R.d(a - 1, a - 2), R.d(a - 1, a), TransDir::LE, true) * fs(s, full->vs[a], R.d(a, a + 1), R.d(a, a - 1), TransDir::EL, true) * G(full->vs[a - 1].sp.geom, full->vs[a].sp.geom);
                const Vec3 want = al * be * cst * fix, C = full->eval_sampling_weight_bidir(s, a);
                c.check(near(C, want, 1e-4, 1e-300), "sampled-weight", [&] { return pth("sampling weight " + S(C) + " with s=" + std::to_string(a) + ", but the samplers' weights give " + S(want)); });
                c.label("sampled-weight");
            }
        }
    }
    c.nontrivial = conn_any; if (ts.smooth) c.label("smooth"); if (ts.glass) c.label("glass"); if (ts.spec) c.label("specular"); if (ts.n_env) c.label("env"); if (ts.n_dir) c.label("directional");
}
}

int main(int argc, char** argv) {
    pbt::Prop p;
    p.id = "P22";
    p.rule = "case = generated scene (1-5 surfaces of any material under nested transforms, 1-3 lights of any kind, camera), 32 primary rays with the local sampling identities at their first hit, and 12 pairs of subpaths of up to 6 vertices connected in every way; every strategy of every connected path is evaluated against an own product of component terms; user-defined media and lights included; plus drawing frequencies of light, component, position and direction against the reported densities. Non-trivial: at least one pair was joined by a connecting edge.";
    p.assumptions = { "configurations within 1e-3 of grazing or with vertices closer than 1e-2 are skipped", "equality of the contribution over splits is asked of flat shading normals without refraction, where no measure conversion is involved", "emitters have flat normals; emitters placed several times do so under transforms of equal scale (otherwise: known finding light-instances)" };
    p.run = run; p.worker_init = init_lm;
    p.quick_cases = 60000; p.thorough_cases = 4000000; p.quick_s = 30; p.thorough_s = 900;
    return pbt::main(argc, argv, p);
}
