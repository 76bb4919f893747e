// Material generator with an own description of what each material is.
#pragma once
#include "lmgen.h"

namespace lmgen {

enum MatKind { M_Diffuse, M_Glossy, M_Mirror, M_Glass, M_Mask, M_Proxy, M_MixRR, M_MixMarg, M_MixObj };

struct MatSpec {
    MatKind kind; std::string name, key; Json prop;
    Vec3 Kd = Vec3(1), Ks = Vec3(0); double ax = 1, ay = 1, Ni = 1; double alpha = 1; bool has_alpha = false, textured = false;
    std::vector<MatSpec> sub; std::vector<double> w;
    bool specular_leaf() const { return kind == M_Mirror || kind == M_Glass || kind == M_Mask || (kind == M_Proxy && sub[0].specular_leaf()); }
    bool transmissive() const {
        if (kind == M_Glass || kind == M_Mask) return true;
        if (kind == M_MixObj) return has_alpha && alpha < 1;
        for (auto& s : sub) if (s.transmissive()) return true;
        return false;
    }
    bool contains(MatKind k) const { if (kind == k) return true; for (auto& s : sub) if (s.contains(k)) return true; return false; }
    // Smallest roughness of the glossy parts
    double min_rough() const { double r = kind == M_Glossy || (kind == M_MixObj && std::max({ Ks.x, Ks.y, Ks.z }) > 0) ? std::min(ax, ay) : 10; for (auto& s : sub) r = std::min(r, s.min_rough()); return r; }
    std::string str() const {
        static const char* n[] = { "diffuse", "glossy", "mirror", "glass", "mask", "proxy", "mixRR", "mixMarg", "mixObj" };
        std::string s = n[kind]; s += "(";
        if (kind == M_Diffuse || kind == M_MixObj) s += "Kd=" + s6(Kd) + (textured ? "[tex]" : "");
        if (kind == M_Glossy || kind == M_MixObj) s += " Ks=" + s6(Ks) + " ax=" + s6(ax) + " ay=" + s6(ay);
        if (kind == M_Glass) s += "Ni=" + s6(Ni);
        if (has_alpha) s += " alpha=" + s6(alpha);
        for (size_t i = 0; i < sub.size(); i++) s += (i ? ", " : "") + (w.size() > i ? s6(w[i]) + "*" : std::string()) + sub[i].str();
        return s + ")";
    }
};

// Loads the material (and everything below) as assets and returns its locator.
inline std::string load_material(const MatSpec& m) {
    for (auto& s : m.sub) load_material(s);
    if (m.textured) {
        Json t = { {"color", J(m.Kd)} }; if (m.has_alpha) t["alpha"] = m.alpha;
        asset(m.name + "_tex", "texture::constant", t);
    }
    return asset(m.name, m.key, m.prop);
}

inline MatSpec gen_leaf(Ctx& c, const std::string& name, bool allow_glass = true, bool allow_spec = true) {
    MatSpec m; m.name = name;
    const int k = c.weighted({ 5, 6, allow_spec ? 2 : 0, allow_glass && allow_spec ? 3 : 0, allow_spec ? 2 : 0 });
    m.kind = MatKind(k);
    switch (m.kind) {
        case M_Diffuse: m.key = "material::diffuse"; m.Kd = gen_color(c); m.prop = Json::object();
            if (c.chance(.3)) { m.textured = true; m.prop["mapKd"] = "$.assets." + name + "_tex"; if (c.coin()) m.prop["Kd"] = J(gen_color(c)); }
            else if (c.chance(.9)) m.prop["Kd"] = J(m.Kd); else m.Kd = Vec3(1);
            break;
        case M_Glossy: m.key = "material::glossy"; m.Ks = gen_color(c, .05, 1);
            m.ax = c.logreal(.05, 1); m.ay = c.coin() ? m.ax : c.logreal(.05, 1);
            m.prop = { {"Ks", J(m.Ks)}, {"ax", m.ax}, {"ay", m.ay} }; break;
        case M_Mirror: m.key = "material::mirror"; m.prop = Json::object(); break;
        case M_Glass: m.key = "material::glass"; m.Ni = c.chance(.85) ? c.real(1.02, 3) : c.real(.4, .98); m.prop = { {"Ni", m.Ni} }; break;
        default: m.kind = M_Mask; m.key = "material::mask"; m.prop = Json::object();
    }
    return m;
}

inline MatSpec gen_material(Ctx& c, const std::string& name, bool allow_glass = true, bool allow_spec = true) {
    const int k = c.weighted({ 8, 1, 2, 2, 3 });
    if (k == 0) return gen_leaf(c, name, allow_glass, allow_spec);
    MatSpec m; m.name = name;
    if (k == 1) {
        m.kind = M_Proxy; m.key = "material::proxy"; m.sub.push_back(gen_leaf(c, name + "_0", allow_glass, allow_spec));
        m.prop = { {"ref", "$.assets." + name + "_0"} };
    } else if (k == 2 || k == 3) {
        m.kind = k == 2 ? M_MixRR : M_MixMarg;
        m.key = k == 2 ? "material::constant_weight_mixture_rr" : "material::constant_weight_mixture_marginalized";
        m.prop = Json::array();
        const int n = c.in(1, 4); double sum = 0;
        for (int i = 0; i < n; i++) {
            // Mixtures use the first component of each entry, so entries have a single one
            m.sub.push_back(gen_leaf(c, name + "_" + std::to_string(i), false, allow_spec));
            m.w.push_back(c.chance(.1) && i ? 0. : c.real(.05, 1)); sum += m.w.back();
        }
        if (c.chance(.7)) for (auto& w : m.w) w /= sum;     // energy conserving
        for (int i = 0; i < n; i++) m.prop.push_back({ {"material", "$.assets." + name + "_" + std::to_string(i)}, {"weight", m.w[i]} });
    } else {
        m.kind = M_MixObj; m.key = "material::mixture_wavefrontobj";
        m.Kd = gen_color(c, 0, .7); m.Ks = c.chance(.25) ? Vec3(0) : gen_color(c, 0, .3);
        if (c.chance(.1)) m.Kd = Vec3(0);
        m.ax = c.logreal(.05, 1); m.ay = c.coin() ? m.ax : c.logreal(.05, 1);
        m.textured = c.coin(); m.has_alpha = m.textured && allow_spec && c.chance(.7);
        const bool no_mask = c.chance(.2);
        if (m.has_alpha) m.alpha = c.pick(std::vector<double>{ 0, 1, .25, c.unit(), c.unit() });
        m.prop = { {"Kd", J(m.textured ? gen_color(c) : m.Kd)}, {"mapKd", m.textured ? "$.assets." + name + "_tex" : ""}, {"Ks", J(m.Ks)}, {"ax", m.ax}, {"ay", m.ay}, {"no_alpha_mask", no_mask} };
        if (no_mask && m.has_alpha) { m.has_alpha = false; }
    }
    return m;
}

// Random surface point with shading normal possibly different from the geometry normal.
inline PointGeometry gen_geom(Ctx& c) {
    const Vec3 n = gen_dir(c);
    const Vec3 gn = c.coin() ? n : unit(n + Vec3(c.real(-.3, .3), c.real(-.3, .3), c.real(-.3, .3)));
    return PointGeometry::make_on_surface(gen_vec(c, 3), n, gn, Vec2(c.nice(-2, 2), c.nice(-2, 2)));
}
// Direction on a chosen side of the shading normal; cosine bounded away from 0 by `mincos`.
inline Vec3 gen_side_dir(Ctx& c, const PointGeometry& g, bool front, double mincos) {
    double z; switch (c.weighted({ 6, 1, 1 })) { case 1: z = 1; break; case 2: z = mincos + .05 * c.unit(); break; default: z = mincos + (1 - mincos) * c.unit(); }
    z = std::min(z, 1.0);
    const double t = c.real(0, 6.283185307179586), r = std::sqrt(std::max(0., 1 - z * z));
    return unit(g.u * (r * std::cos(t)) + g.v * (r * std::sin(t)) + g.n * (front ? z : -z));
}

// Low-discrepancy points (additive recurrence), deterministic per offset.
struct LD4 {
    double a[4], x[4];
    explicit LD4(double off) { double g = 1.1673039782614187; double p = 1; for (int i = 0; i < 4; i++) { p /= g; a[i] = p; x[i] = std::fmod(off * (i + 1) * 0.7548776662466927 + .5, 1.0); } }
    void next() { for (int i = 0; i < 4; i++) { x[i] += a[i]; if (x[i] >= 1) x[i] -= 1; } }
};

} // namespace lmgen
