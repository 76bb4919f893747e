// P05: physics of the surface materials (reciprocity, energy, optical laws, documented models).
#include "matgen.h"
using namespace lmgen;
using TD = Material::TransDir;

namespace {

const double PI_ = 3.14159265358979323846;

// Reference microfacet model: anisotropic GGX, Smith masking, Schlick Fresnel.
Vec3 ref_glossy(const MatSpec& m, const PointGeometry& g, Vec3 wi, Vec3 wo) {
    const LD ci = dot_(wi, g.n), co = dot_(wo, g.n);
    if (ci * co <= 0) return Vec3(0);
    const double sg = ci > 0 ? 1 : -1;
    const Vec3 h = unit(wi + wo);
    const LD hx = dot_(h, g.u), hy = dot_(h, g.v), hz = sg * dot_(h, g.n);
    const LD k = hx * hx / (LD(m.ax) * m.ax) + hy * hy / (LD(m.ay) * m.ay) + hz * hz;
    const LD D = 1 / (LD(PI_) * m.ax * m.ay * k * k);
    const auto G1 = [&](Vec3 w) -> LD {
        const LD z = dot_(w, g.n), x = dot_(w, g.u), y = dot_(w, g.v);
        const LD t2 = (x * x * m.ax * m.ax + y * y * m.ay * m.ay) / (z * z);
        return 2 / (1 + std::sqrt(double(1 + t2)));
    };
    const LD G = G1(wi) * G1(wo);
    const LD s = std::pow(1 - dot_(wo, h), 5.0);
    Vec3 r;
    for (int i = 0; i < 3; i++) { const LD F = m.Ks[i] + (1 - LD(m.Ks[i])) * s; r[i] = double(m.Ks[i] * F * D * G / (4 * ci * co)); }
    return r;
}
// Value of the non-specular part of a material as its description says.
Vec3 ref_value(const MatSpec& m, const PointGeometry& g, Vec3 wi, Vec3 wo) {
    switch (m.kind) {
        case M_Diffuse: return dot_(wi, g.n) * dot_(wo, g.n) > 0 ? m.Kd / PI_ : Vec3(0);
        case M_Glossy: return ref_glossy(m, g, wi, wo);
        case M_Proxy: return ref_value(m.sub[0], g, wi, wo);
        case M_MixRR: case M_MixMarg: { Vec3 s(0); for (size_t i = 0; i < m.sub.size(); i++) s += ref_value(m.sub[i], g, wi, wo) * m.w[i]; return s; }
        case M_MixObj: return ((dot_(wi, g.n) * dot_(wo, g.n) > 0 ? m.Kd / PI_ : Vec3(0)) + ref_glossy(m, g, wi, wo)) * (m.has_alpha ? m.alpha : 1.0);
        default: return Vec3(0);
    }
}
// Upper bound of the albedo promised by the parameters; > 1 means no promise.
double promised(const MatSpec& m) {
    switch (m.kind) {
        case M_Diffuse: return std::max({ m.Kd.x, m.Kd.y, m.Kd.z });
        case M_Glossy: return std::max({ m.Ks.x, m.Ks.y, m.Ks.z });
        case M_Proxy: return promised(m.sub[0]);
        case M_MixRR: case M_MixMarg: { double s = 0; for (size_t i = 0; i < m.sub.size(); i++) s += m.w[i] * promised(m.sub[i]); return s; }
        case M_MixObj: { Vec3 s = m.Kd + m.Ks; const double a = m.has_alpha ? m.alpha : 1; return a * std::max({ s.x, s.y, s.z }) + 1 - a; }
        default: return 1;
    }
}
std::vector<int> comps(const Material* m, const PointGeometry& g, Vec3 wi) {
    std::set<int> s; for (double u : { 0.0, 1 - 1e-16 }) s.insert(m->sample_component({ Vec2(u, .5) }, g, wi).comp); for (int k = 0; k < 256; k++) s.insert(m->sample_component({ Vec2((k + .5) / 256, .5) }, g, wi).comp);
    return { s.begin(), s.end() };
}
// All non-specular components of the material (including ones never drawn for this direction).
Vec3 total(const Material* m, const std::vector<int>& cs, const PointGeometry& g, Vec3 wi, Vec3 wo, TD T) {
    Vec3 s(0); for (int k : cs) if (!m->is_specular_component(k)) s += m->eval(g, wi, wo, k, T, true); return s;
}

void check_glass(Ctx& c, const MatSpec& ms, const Material* m, const PointGeometry& g, Vec3 wi, const std::function<std::string(const std::string&)>& ctx) {
    const bool in = dot_(wi, g.n) > 0; const Vec3 n = in ? g.n : -g.n;
    const LD eta = in ? 1 / LD(ms.Ni) : LD(ms.Ni);      // n_incident / n_transmitted
    const LD ci = dot_(wi, n), sin2t = eta * eta * (1 - ci * ci);
    if (std::fabs(double(1 - sin2t)) < 1e-7) return;    // at the critical angle
    const bool tir = sin2t > 1;
    const LD ct = tir ? 0 : std::sqrt(double(1 - sin2t));
    const LD r0 = (1 - LD(ms.Ni)) / (1 + LD(ms.Ni));
    const LD cs = in ? ci : ct;
    const double F = tir ? 1.0 : double(r0 * r0 + (1 - r0 * r0) * std::pow(double(1 - cs), 5.0));
    const Vec3 wr = n * (2 * double(ci)) - wi;
    const Vec3 wt = (n * double(ci) - wi) * double(eta) - n * double(ct);
    // Follow the sampler over a grid of random numbers
    double pr = 0, pt = 0; const int G = 256; const double off = c.unit();
    for (int td = 0; td < 2; td++) {
        const TD T = td ? TD::LE : TD::EL;
        pr = pt = 0;
        for (int k = 0; k < G; k++) {
            const double u = (k + off) / G;
            const auto sc = m->sample_component({ Vec2(u, .5) }, g, wi);
            const auto s = m->sample_direction({ Vec2(.3, .6), Vec2(u, .2) }, g, wi, sc.comp, T);
            c.check(bool(s), "glass-no-sample", [&] { return ctx("dielectric sampled nothing"); });
            if (!s) return;
            c.check(m->is_specular_component(sc.comp), "glass-not-specular", [&] { return ctx("dielectric component not specular"); });
            const double W = sc.weight * s->weight.x;
            if (near(s->wo, wr, 0, 1e-7)) {
                pr += 1.0 / G;
                c.check(near(W, 1.0, 1e-6), "glass-reflect-weight", [&] { return ctx("reflected with weight " + S(W) + ", expected 1"); });
            } else {
                c.check(!tir, "glass-tir", [&] { return ctx("transmitted beyond the critical angle"); });
                c.check(near(s->wo, wt, 0, 1e-7), "glass-snell", [&] { return ctx("direction " + S(s->wo) + " is neither the mirror direction nor the refracted direction " + S(wt)); });
                pt += 1.0 / G;
                const double want = T == TD::EL ? double(eta * eta) : 1.0;
                c.check(near(W, want, 1e-6), "glass-refract-weight", [&] { return ctx(std::string(td ? "LE" : "EL") + " transmitted with weight " + S(W) + ", expected " + S(want)); });
            }
        }
        c.check(std::fabs(pr - F) < 1.6 / G, "glass-fresnel", [&] { return ctx("reflection probability " + S(pr) + ", Fresnel reflectance " + S(F)); });
    }
    if (tir) c.label("glass-tir"); else c.label("glass");
}

void run(Ctx& c) {
    lm::reset();
    MatSpec ms = gen_material(c, "m");
    c.note(ms.str());
    load_material(ms);
    const PointGeometry g = gen_geom(c);
    if ((ms.kind == M_Diffuse || ms.kind == M_MixObj) && ms.textured && c.coin()) {
        // Image texture instead of a constant one: value and alpha are those of the texel at the point's texture coordinates
        const bool alpha = ms.kind == M_MixObj && c.coin(), masked = alpha && !ms.prop["no_alpha_mask"].get<bool>();
        const int W = c.in(1, 4), H = c.in(1, 4); const std::string f = c.scratch + "/t.tga";
        FILE* o = fopen(f.c_str(), "wb"); unsigned char h[18] = {}; h[2] = 2; h[12] = (unsigned char)W; h[14] = (unsigned char)H; h[16] = alpha ? 32 : 24; h[17] = 0x20 | (alpha ? 8 : 0); fwrite(h, 1, 18, o);
        for (int i = 0; i < (alpha ? 4 : 3) * W * H; i++) fputc(c.in(0, ms.kind == M_MixObj && (!alpha || i % 4 != 3) ? 200 : 255), o); fclose(o);
        asset("m_tex", "texture::bitmap", { {"path", f}, {"flip", false} });
        auto* t = get<Texture>("$.assets.m_tex"); ms.Kd = t->eval(g.t); ms.textured = false; ms.has_alpha = masked; ms.alpha = masked ? t->eval_alpha(g.t) : 1;
        c.note(" bitmap ", W, "x", H); c.label(alpha ? "bitmap-alpha" : "bitmap");
    }
    auto* m = get<Material>("$.assets.m");
    const Vec3 wi = gen_side_dir(c, g, c.chance(.6), 2e-3);
    c.note(" n=", s6(g.n), " wi=", s6(wi));
    const auto ctx = [&](const std::string& s) { return s + " [" + ms.str() + " n=" + S(g.n) + " wi=" + S(wi) + "]"; };
    pbt::Rand R(c.seed64());
    const auto cs = comps(m, g, wi);
    const double sgn = dot_(wi, g.n) > 0 ? 1 : -1;

    // Values: model, reciprocity, sidedness
    if (!ms.specular_leaf()) for (int k = 0; k < 16; k++) {
        Vec3 wo;
        if (k < 10) wo = rand_dir(R);
        else { Vec3 h = unit(g.n * sgn + (g.u * (R.u() - .5) + g.v * (R.u() - .5)) * (2 * std::min(1.0, ms.min_rough()))); wo = unit(h * (2 * dot_(wi, h)) - wi); }
        if (k & 1) { if (dot_(wo, g.n) * sgn < 0) wo = wo - g.n * (2 * dot_(wo, g.n)); }
        const double co = dot_(wo, g.n);
        if (std::fabs(co) < 2e-3) continue;
        const auto cs2 = comps(m, g, wo);
        for (int td = 0; td < 2; td++) {
            const TD T = td ? TD::LE : TD::EL;
            const Vec3 f = total(m, cs, g, wi, wo, T), b = total(m, cs2, g, wo, wi, T), r = ref_value(ms, g, wi, wo);
            const auto cw = [&](const std::string& s) { return ctx(s + " wo=" + S(wo)); };
            c.check(near(f, b, 1e-6, 1e-12), "reciprocity", [&] { return cw("f(wi,wo)=" + S(f) + " f(wo,wi)=" + S(b)); });
            // near normal incidence the implementation guards a division (1e-3), which perturbs the masking term slightly
            c.check(near(f, r, 1e-4, 1e-12), "model", [&] { return cw("value " + S(f) + ", model " + S(r)); });
            if (co * sgn < 0) c.check(f == Vec3(0), "leak", [&] { return cw("non-transmissive reflection lets light through"); });
        }
    }
    // Reflectance
    {
        Vec3 want(0); bool known = true;
        std::function<Vec3(const MatSpec&)> refl = [&](const MatSpec& q) -> Vec3 {
            switch (q.kind) {
                case M_Diffuse: case M_MixObj: return q.Kd; case M_Glossy: return q.Ks; case M_Proxy: return refl(q.sub[0]);
                case M_MixRR: case M_MixMarg: { Vec3 s(0); for (size_t i = 0; i < q.sub.size(); i++) s += refl(q.sub[i]) * q.w[i]; return s; }
                default: return Vec3(0);
            }
        };
        want = refl(ms);
        if (known) c.check(near(m->reflectance(g), want, 1e-9, 1e-12), "reflectance", [&] { return ctx("reflectance " + S(m->reflectance(g)) + " expected " + S(want)); });
    }
    // Energy: mean weight of the sampler (both selections)
    const double prom = promised(ms);
    if (std::fabs(dot_(wi, g.n)) > .02) {
        const int N = 2048; LD4 q(c.unit()); Vec3 mean(0); double m2 = 0;
        for (int k = 0; k < N; k++) {
            q.next();
            const double uc = (k + .5) / N;
            const auto sc = m->sample_component({ Vec2(q.x[2], .5) }, g, wi);
            const auto s = m->sample_direction({ Vec2(q.x[0], q.x[1]), Vec2(q.x[3], uc) }, g, wi, sc.comp, TD::LE);
            if (!s) continue;
            const Vec3 w = s->weight * sc.weight; mean += w / double(N); const double mx = std::max({ w.x, w.y, w.z }); m2 += mx * mx / N;
        }
        const double a = std::max({ mean.x, mean.y, mean.z });
        const double tol = .02 + 3 * std::sqrt(m2 / N);
        if (prom <= 1 + 1e-9) c.check(a <= prom + tol || a <= 1e-9, "energy", [&] { return ctx("mean weight " + S(mean) + " exceeds the promised albedo " + S(prom)); });
        if (prom <= 1 + 1e-9) c.label("energy");
        if (ms.kind == M_Diffuse) c.check(near(mean, ms.Kd, 1e-6, 1e-9), "diffuse-albedo", [&] { return ctx("albedo " + S(mean)); });
        if (ms.kind == M_MixObj && ms.has_alpha && std::max({ ms.Ks.x, ms.Ks.y, ms.Ks.z }) == 0)
            c.check(near(mean, ms.Kd * ms.alpha + Vec3(1 - ms.alpha), .03, .03), "mask-albedo", [&] { return ctx("albedo " + S(mean) + " of alpha-masked diffuse"); });
    }
    // Specular laws
    const MatSpec* leaf = ms.kind == M_Proxy ? &ms.sub[0] : &ms;
    if (leaf->kind == M_Mirror || leaf->kind == M_Mask) {
        for (int td = 0; td < 2; td++) {
            const auto s = m->sample_direction({ Vec2(c.unit_c(), c.unit_c()), Vec2(c.unit_c(), .5) }, g, wi, 0, td ? TD::LE : TD::EL);
            const Vec3 want = leaf->kind == M_Mirror ? g.n * (2 * dot_(wi, g.n)) - wi : -wi;
            c.check(s && near(s->wo, want, 0, 1e-9) && near(s->weight, Vec3(1), 1e-9), "mirror-law", [&] { return ctx("specular direction " + (s ? S(s->wo) + " weight " + S(s->weight) : std::string("none")) + ", expected " + S(want)); });
            c.check(m->is_specular_component(0), "mirror-law", [&] { return ctx("not specular"); });
        }
        c.label("mirror/mask");
    }
    if (leaf->kind == M_Glass) check_glass(c, *leaf, m, g, wi, ctx);
    // Specular parts of mixtures behave as the entry they come from
    if (ms.kind == M_MixRR || ms.kind == M_MixMarg) {
        std::map<std::string, double> got, want; // direction -> weight
        const int N = 512;
        double straight = 0, mirror = 0, ws = 0, wm = 0;
        for (size_t i = 0; i < ms.sub.size(); i++) { if (ms.sub[i].kind == M_Mask) straight += ms.w[i]; if (ms.sub[i].kind == M_Mirror) mirror += ms.w[i]; }
        const Vec3 wr = g.n * (2 * dot_(wi, g.n)) - wi;
        for (int k = 0; k < N; k++) {
            const auto sc = m->sample_component({ Vec2((k + .5) / N, .5) }, g, wi);
            if (!m->is_specular_component(sc.comp)) continue;
            const auto s = m->sample_direction({ Vec2(.2, .7), Vec2(.4, .1) }, g, wi, sc.comp, TD::EL);
            if (!s) continue;
            const double W = sc.weight * s->weight.x / N;
            if (near(s->wo, -wi, 0, 1e-9)) ws += W; else if (near(s->wo, wr, 0, 1e-9)) wm += W;
            else c.check(false, "mixture-specular", [&] { return ctx("specular mixture component sampled " + S(s->wo)); });
        }
        double sum = 0; for (double w : ms.w) sum += w;
        if (std::fabs(dot_(wi, g.n)) < 1 - 1e-9)
            c.check(std::fabs(ws - straight) <= 8 * sum / N && std::fabs(wm - mirror) <= 8 * sum / N, "mixture-specular", [&] { return ctx("specular parts carry " + S(ws) + "/" + S(wm) + ", expected " + S(straight) + "/" + S(mirror)); });
        c.label("mixture");
    }
    c.nontrivial = true;
}

}

int main(int argc, char** argv) {
    pbt::Prop p;
    p.id = "P05";
    p.rule = "case = one generated material (as P04), surface frame and incident direction on either side: values for 16 outgoing directions against an own model and swapped directions, albedo from 2048 low-discrepancy samples, Snell/Fresnel/total reflection from 256 sampler runs per transport direction. Every case is non-trivial (at least reflectance and energy are compared).";
    p.assumptions = { "|cos| >= 2e-3", "glossy parameters: roughness 0.05..1, Ks 0.05..1", "the Fresnel reflectance of the dielectric is Schlick's approximation" };
    p.run = run; p.worker_init = init_lm;
    p.quick_cases = 300000; p.thorough_cases = 10000000; p.quick_s = 35; p.thorough_s = 600;
    return pbt::main(argc, argv, p);
}
