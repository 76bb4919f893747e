// P04: sampling, density and evaluation of surface materials agree.
#include "matgen.h"
using namespace lmgen;
using TD = Material::TransDir;

namespace {

void collect(const MatSpec& m, std::vector<Vec2>& o) {
    if (m.kind == M_Glossy || m.kind == M_MixObj) o.push_back(Vec2(m.ax, m.ay));
    for (auto& s : m.sub) collect(s, o);
}

void run(Ctx& c) {
    lm::reset();
    const MatSpec ms = gen_material(c, "m");
    c.note(ms.str());
    auto* m = get<Material>(load_material(ms));
    const PointGeometry g = gen_geom(c);
    const bool front = c.chance(.65);
    const Vec3 wi = gen_side_dir(c, g, front, 1e-3);
    const double ci = std::fabs(dot_(wi, g.n));
    c.note(" n=", s6(g.n), " wi=", s6(wi), " cos=", s6(dot_(wi, g.n)));
    const auto ctx = [&](const std::string& s) { return s + " [" + ms.str() + " n=" + S(g.n) + " wi=" + S(wi) + "]"; };

    // (a) component selection
    std::map<int, double> freq; const int G = 512; const double off = c.unit();
    const double uc1 = c.unit();
    for (int k = 0; k < G; k++) {
        const double u = (k + off) / G;
        const auto s = m->sample_component({ Vec2(u, uc1) }, g, wi);
        freq[s.comp] += 1.0 / G;
        const double p = m->pdf_component(s.comp, g, wi);
        c.check(p > 0 && near(s.weight, 1 / p, 1e-9), "component-weight", [&] { return ctx("component " + std::to_string(s.comp) + " weight " + S(s.weight) + " but probability " + S(p)); });
    }
    double psum = 0;
    for (auto& f : freq) {
        const double p = m->pdf_component(f.first, g, wi); psum += p;
        c.check(std::fabs(f.second - p) <= 2.5 / G, "component-frequency", [&] { return ctx("component " + std::to_string(f.first) + " drawn with frequency " + S(f.second) + ", probability " + S(p)); });
    }
    c.check(psum <= 1 + 1e-9 && psum > 1 - (freq.size() + 6) * 1.0 / G, "component-sum", [&] { return ctx("component probabilities sum to " + S(psum)); });
    for (double u : { 0., 1 - 1e-16 }) {
        const auto s = m->sample_component({ Vec2(u, uc1) }, g, wi);
        c.check(std::isfinite(s.weight) && s.weight >= 1 - 1e-9, "component-weight", [&] { return ctx("component weight " + S(s.weight) + " at u=" + S(u)); });
    }

    // (b) per-sample relation
    pbt::Rand R(c.seed64());
    bool any = false;
    for (auto& f : freq) {
        const int comp = f.first;
        const bool spec = m->is_specular_component(comp);
        for (int td = 0; td < 2; td++) {
            const TD T = td ? TD::LE : TD::EL;
            for (int k = 0; k < 12; k++) {
                Material::DirectionSampleU u{ Vec2(k < 3 ? c.unit_c() : R.u(), k < 3 ? c.unit_c() : R.u()), Vec2(k < 3 ? c.unit_c() : R.u(), R.u()) };
                const auto s = m->sample_direction(u, g, wi, comp, T);
                if (!s) { c.check(!spec, "specular-sample-failed", [&] { return ctx("no direction sampled for specular component"); }); continue; }
                const auto su = [&](const std::string& t) { return ctx(t + " comp=" + std::to_string(comp) + (td ? " LE" : " EL") + " u=" + S(u.ud) + S(u.udc) + " wo=" + S(s->wo) + " weight=" + S(s->weight)); };
                c.check(finite(s->wo) && near(dot_(s->wo, s->wo), 1, 1e-6), "direction-not-unit", [&] { return su("sampled direction is not a unit vector"); });
                c.check(finite(s->weight) && s->weight.x >= 0 && s->weight.y >= 0 && s->weight.z >= 0, "bad-weight", [&] { return su("weight negative or not finite"); });
                const double co = std::fabs(dot_(s->wo, g.n));
                if (!spec && (co < 1e-6)) continue;     // grazing: value and density are both unbounded
                const double p = m->pdf_direction(g, wi, s->wo, comp, false);
                const Vec3 e = m->eval(g, wi, s->wo, comp, T, false);
                c.check(std::isfinite(p) && p > 0, "sampled-zero-density", [&] { return su("density of sampled direction is " + S(p)); });
                c.check(near(s->weight * p, e, 1e-6, 1e-12), "weight-mismatch", [&] { return su("weight*density=" + S(s->weight * p) + " but value=" + S(e) + " (density " + S(p) + ")"); });
                any = true;
                const double pd = m->pdf_direction(g, wi, s->wo, comp, true); const Vec3 ed = m->eval(g, wi, s->wo, comp, T, true);
                if (spec) c.check(pd == 0 && ed == Vec3(0), "delta-flag", [&] { return su("delta evaluated as ordinary function is not zero"); });
                else c.check(near(pd, p, 1e-9) && near(ed, e, 1e-9), "delta-flag", [&] { return su("delta flag changes a non-specular component"); });
            }
            // arbitrary directions
            if (!spec) for (int k = 0; k < 8; k++) {
                const Vec3 wo = rand_dir(R);
                if (std::fabs(dot_(wo, g.n)) < 1e-4) continue;
                const double p = m->pdf_direction(g, wi, wo, comp, false); const Vec3 e = m->eval(g, wi, wo, comp, T, false);
                const auto su = [&](const std::string& t) { return ctx(t + " comp=" + std::to_string(comp) + " wo=" + S(wo) + " density=" + S(p) + " value=" + S(e)); };
                c.check(std::isfinite(p) && p >= 0 && finite(e) && e.x >= 0 && e.y >= 0 && e.z >= 0, "bad-value", [&] { return su("value or density negative or not finite"); });
                c.check(p > 0 || e == Vec3(0), "value-without-density", [&] { return su("value is positive where density is zero"); });
            }
        }
        // (c) the density is that of the sampler: moments of the sampler vs quadrature of the density
        const bool distribution = !spec && ms.min_rough() > .08 && ci > .02;
        if (distribution) {
            c.label("distribution-test");
            const int NF = 9; double ms_[NF] = {}, mq[NF] = {};
            const Vec3 ax1 = rand_dir(R), ax2 = rand_dir(R), ax3 = rand_dir(R);
            const auto funcs = [&](const Vec3& w, double* o) {
                const double x = dot_(w, g.u), y = dot_(w, g.v), z = dot_(w, g.n);
                o[0] = 1; o[1] = x; o[2] = y; o[3] = z; o[4] = x * x; o[5] = x * y;
                o[6] = std::exp(2 * (dot_(w, ax1) - 1)); o[7] = std::exp(4 * (dot_(w, ax2) - 1)); o[8] = std::exp(8 * (dot_(w, ax3) - 1));
            };
            const int N = 8192; LD4 q(c.unit());
            int inval = 0;
            for (int k = 0; k < N; k++) {
                q.next();
                const auto s = m->sample_direction({ Vec2(q.x[0], q.x[1]), Vec2(q.x[2], q.x[3]) }, g, wi, comp, TD::EL);
                if (!s) { inval++; continue; }
                double o[NF]; funcs(s->wo, o); for (int i = 0; i < NF; i++) ms_[i] += o[i] / N;
            }
            // Quadrature over the sphere: a cosine lobe about +-n and one half-vector lobe per glossy part, combined by the
            // balance heuristic, so peaked densities are resolved.
            std::vector<Vec2> lobes; collect(ms, lobes); if (lobes.empty()) lobes.push_back(Vec2(.5));
            const Vec3 n = dot_(wi, g.n) > 0 ? g.n : -g.n;
            const Vec3 bu = g.u, bv = cross_(n, g.u);
            const double PI_ = 3.14159265358979323846;
            const auto q1 = [&](const Vec3& w) { return std::fabs(dot_(w, g.n)) / PI_ * .5; };          // both hemispheres
            const auto q2 = [&](const Vec3& w, Vec2 a) {
                Vec3 h = wi + w; const double l = std::sqrt(dot_(h, h)); if (l < 1e-9) return 0.0; h = h / l;
                const double ch = dot_(h, n), dh = dot_(w, h); if (!(ch > 0 && dh > 0)) return 0.0;
                const double x = dot_(h, bu) / a.x, y = dot_(h, bv) / a.y, k = x * x + y * y + ch * ch;
                return ch / (PI_ * a.x * a.y * k * k) / (4 * dh);
            };
            const int L = int(lobes.size()), Q = 8192 * (L + 1); LD4 z(c.unit());
            for (int k = 0; k < Q; k++) {
                z.next(); Vec3 w;
                const int sel = k % (L + 1);
                if (sel == L) {
                    const double r = std::sqrt(z.x[0]), t = 6.283185307179586 * z.x[1], s = z.x[2] < .5 ? 1 : -1;
                    w = bu * (r * std::cos(t)) + bv * (r * std::sin(t)) + n * (s * std::sqrt(std::max(0.0, 1 - r * r)));
                } else {
                    const double t = 6.283185307179586 * z.x[1], k2 = std::sqrt(z.x[0] / (1 - z.x[0]));
                    const Vec3 h = unit((bu * (std::cos(t) * lobes[sel].x) + bv * (std::sin(t) * lobes[sel].y)) * k2 + n);
                    w = h * (2 * dot_(wi, h)) - wi;
                }
                double d = q1(w); for (auto& a : lobes) d += q2(w, a);
                d /= L + 1; if (!(d > 1e-12)) continue;
                const double co = std::fabs(dot_(w, g.n)); if (co < 1e-9) continue;
                const double p = m->pdf_direction(g, wi, w, comp, false) * co / d / Q;
                double o[NF]; funcs(w, o); for (int i = 0; i < NF; i++) mq[i] += o[i] * p;
            }
            double worst = 0; int wi_ = 0; for (int i = 0; i < NF; i++) if (std::fabs(ms_[i] - mq[i]) > worst) { worst = std::fabs(ms_[i] - mq[i]); wi_ = i; }
            if (getenv("PBT_STAT")) { FILE* f = fopen(getenv("PBT_STAT"), "a"); fprintf(f, "%g %d %s\n", worst, wi_, ctx("").c_str()); fclose(f); }
            c.check(worst < .02, "density-not-sampler", [&] { return ctx("comp=" + std::to_string(comp) + ": mean of test function " + std::to_string(wi_) + " under the sampler is " + S(ms_[wi_]) + ", integral with the reported density is " + S(mq[wi_])); });
            c.check(mq[0] <= 1 + .02, "density-above-one", [&] { return ctx("density integrates to " + S(mq[0])); });
        }
    }
    c.label(ms.kind == M_Diffuse ? "diffuse" : ms.kind == M_Glossy ? "glossy" : ms.kind == M_Mirror ? "mirror" : ms.kind == M_Glass ? "glass" : ms.kind == M_Mask ? "mask" : ms.kind == M_Proxy ? "proxy" : ms.kind == M_MixRR ? "mixture-rr" : ms.kind == M_MixMarg ? "mixture-marginalized" : "mixture-obj");
    c.nontrivial = any;
}

}

int main(int argc, char** argv) {
    pbt::Prop p;
    p.id = "P04";
    p.rule = "case = one generated material (all built-in kinds, nested in proxies/mixtures, constant-textured, alpha-masked), surface frame, incident direction on either side; all components, both transport directions, random and corner random numbers; distribution test on 8192 low-discrepancy samples against a quadrature of 8192 points per lobe for non-specular components with roughness > 0.08. Non-trivial: at least one sampled direction was compared with its density and value.";
    p.assumptions = { "incident cosine >= 1e-3", "mixture entries are single-component materials", "distribution test resolves deviations above 0.02 in nine test functions" };
    p.run = run; p.worker_init = init_lm;
    p.quick_cases = 70000; p.thorough_cases = 4000000; p.quick_s = 40; p.thorough_s = 900;
    return pbt::main(argc, argv, p);
}
