// Generated scenes for light transport: camera outside of a cluster of surfaces, lights around it.
#pragma once
#include "matgen.h"
#include "imgio.h"

namespace lmgen {

struct TOpt {
    bool spec = true, glass = true;         // specular / refracting materials
    bool smooth = true;                     // shading normals different from the geometry normals
    bool area = true, point = true, dir = true, env = true;
    bool force_area = false, force_env = false;
    int max_lights = 3, max_objs = 5;
    bool textured = true;
    double min_rough = .05;
    bool medium = false;                    // participating medium around the surfaces
    double max_tau = 1.5;
    bool separated = false;                 // surfaces kept away from lights and camera (bounded estimators)
    bool light_mat = false;                 // emitters of any material
    bool env_tex = false;                   // environments with an image
    bool small_lights = false, twins = false; // tiny emitters; emitters that occur twice (density does not depend on the instance)
};

struct TObj { MatSpec mat; bool light = false; };

struct TScene {
    Scene* scene = nullptr; std::string loc; std::string desc;
    int n_area = 0, n_point = 0, n_dir = 0, n_env = 0; bool smooth = false, spec = false, glass = false, mask = false;
    std::vector<std::string> mats; Vec3 cam = Vec3(0);
    int lights() const { return n_area + n_point + n_dir + n_env; }
    struct AL { int prim; Vec3 o, n; bool quad; }; std::vector<AL> areas; // area lights: primitive, centre, facing
    int twins = 0; double aspect = 1; std::vector<Vec3> points, dirs;     // delta lights: positions, directions towards
    bool homog = false, mixed_albedo = false; double density = 0; Vec3 albedo = Vec3(0), blo = Vec3(0), bhi = Vec3(0); double g = 0;
};

inline MeshSpec quad_mesh(double a, double b) {
    MeshSpec m; m.ps = { Vec3(-a, -b, 0), Vec3(a, -b, 0), Vec3(a, b, 0), Vec3(-a, b, 0) }; m.ns = { Vec3(0, 0, 1) }; m.ts = { Vec2(0, 0), Vec2(1, 0), Vec2(1, 1), Vec2(0, 1) };
    for (int k : { 0, 1, 2, 0, 2, 3 }) m.fs.push_back({ k, k, 0 });
    return m;
}
inline MeshSpec box_mesh(Vec3 e) {
    MeshSpec m; for (int i = 0; i < 8; i++) m.ps.push_back(Vec3(i & 1 ? e.x : -e.x, i & 2 ? e.y : -e.y, i & 4 ? e.z : -e.z));
    const int q[6][4] = { {0,4,6,2},{1,3,7,5},{0,1,5,4},{2,6,7,3},{0,2,3,1},{4,5,7,6} };
    m.ts = { Vec2(0, 0), Vec2(1, 0), Vec2(1, 1), Vec2(0, 1) };
    for (auto& f : q) {
        m.ns.push_back(unit(cross_(m.ps[f[1]] - m.ps[f[0]], m.ps[f[2]] - m.ps[f[0]])));
        for (int k : { 0, 1, 2, 0, 2, 3 }) m.fs.push_back({ f[k], k, int(m.ns.size()) - 1 });
    }
    return m;
}
// Tilts every corner normal separately.
inline void smooth_mesh(Ctx& c, MeshSpec& m, double t) {
    std::vector<Vec3> ns;
    for (auto& f : m.fs) { ns.push_back(unit(m.ns[f.n] + Vec3(c.real(-t, t), c.real(-t, t), c.real(-t, t)))); f.n = int(ns.size()) - 1; }
    m.ns = ns;
}
inline Mat4 place(Ctx& c, Vec3 at, Vec3 face, int kind) {
    // z axis -> face
    Vec3 u = std::fabs(face.x) < .6 ? Vec3(1, 0, 0) : Vec3(0, 1, 0); u = unit(cross_(u, face)); const Vec3 v = cross_(face, u);
    Mat4 R(1.0); for (int i = 0; i < 3; i++) { R[0][i] = u[i]; R[1][i] = v[i]; R[2][i] = face[i]; }
    Mat4 m = mat_mul(m_translate(at), mat_mul(R, m_rotate(c.real(0, 6.28), Vec3(0, 0, 1))));
    if (kind == 1) m = mat_mul(m, m_scale(Vec3(c.logreal(.5, 2))));
    if (kind == 2) { Vec3 s(c.logreal(.5, 2), c.logreal(.5, 2), c.logreal(.5, 2)); if (c.chance(.3)) s[c.in(0, 1)] *= -1; m = mat_mul(m, m_scale(s)); }
    return m;
}

inline TScene gen_tscene(Ctx& c, const TOpt& o) {
    lm::reset(); TScene r; std::ostringstream d;
    asset("acc", "accel::sahbvh", {});
    r.loc = asset("scene", "scene::default", { {"accel", "$.assets.acc"} });
    auto* s = r.scene = get<Scene>(r.loc);
    // Primitive below a transform, sometimes split in two nested groups or below an instance group
    const auto attach = [&](int prim, const Mat4& M) {
        const int how = c.weighted({ 5, 2, 2 });
        if (how == 0) { const int g = s->create_group_node(M); s->add_child(g, prim); s->add_child(0, g); }
        else if (how == 1) { const Mat4 t = m_translate(gen_vec(c, 1)); const Mat4 ti = m_translate(-Vec3(t[3])); const int a = s->create_group_node(t), b = s->create_group_node(mat_mul(ti, M)); s->add_child(b, prim); s->add_child(a, b); s->add_child(0, a); }
        else { const int i = s->create_instance_group_node(); const int g = s->create_group_node(M); s->add_child(i, prim); s->add_child(g, i); s->add_child(0, g); }
    };
    int id = 0;
    const auto surface = [&](const MeshSpec& m, const MatSpec& mat, const Mat4& M, const std::string& light = "") {
        const std::string n = std::to_string(id++);
        const auto mesh = asset("mesh" + n, "mesh::raw", m.json()); const auto ml = load_material(mat);
        Json p = { {"mesh", mesh}, {"material", ml} };
        if (!light.empty()) p["light"] = asset("light" + n, "light::area", { {"Ke", Json::parse(light)}, {"mesh", mesh} });
        const int node = s->create_primitive_node(p); attach(node, M);
        if (!light.empty()) {
            const auto note = [&](const Mat4& T) { r.areas.push_back({ node, Vec3(T[3]), unit(cross_(Vec3(T[0]), Vec3(T[1]))) * (det3(T) < 0 ? -1. : 1.), m.fs.size() == 6 }); };
            note(M);
            if (o.twins && c.chance(.3)) { const Vec3 w = unit(Vec3(M[3])); const double l0 = dot_(Vec3(M[0]), Vec3(M[0])), l1 = dot_(Vec3(M[1]), Vec3(M[1])), l2 = dot_(Vec3(M[2]), Vec3(M[2])); const bool uni = std::fabs(l0 - l1) < 1e-9 * l0 && std::fabs(l0 - l2) < 1e-9 * l0; const Mat4 T = mat_mul(m_translate(w * c.real(.8, 1.5)), uni ? mat_mul(m_rotate(c.real(.5, 2.5), Vec3(0, 1, 0)), M) : M); attach(node, T); r.twins++; r.n_area++; r.areas.pop_back(); }
        }
        r.mats.push_back(mat.str());
        if (mat.specular_leaf() || mat.contains(M_Mirror) || mat.contains(M_Mask) || mat.contains(M_Glass) || mat.transmissive()) r.spec = true;
        if (mat.contains(M_Glass)) r.glass = true;
        if (mat.contains(M_Mask) || (mat.kind == M_MixObj && mat.transmissive())) r.mask = true;
    };
    const auto material = [&](const std::string& n) { for (int k = 0;; k++) { MatSpec m = gen_material(c, n + "_" + std::to_string(k), o.glass, o.spec); if (m.min_rough() >= o.min_rough || k > 20) return m; } };
    // surfaces
    if (c.chance(.7)) {
        MatSpec f = material("floor"); const double e = c.real(2.5, 4);
        MeshSpec m = quad_mesh(e, e); if (o.smooth && c.chance(.3)) { smooth_mesh(c, m, .15); r.smooth = true; }
        surface(m, f, place(c, Vec3(0, -1.5, 0), Vec3(0, c.chance(.8) ? 1 : -1, 0), 0)); d << "floor " << f.str() << "; ";
    }
    const int no = c.in(1, o.max_objs);
    for (int i = 0; i < no; i++) {
        const MatSpec mat = material("m" + std::to_string(i));
        MeshSpec m = c.coin() ? quad_mesh(c.real(.4, 1.2), c.real(.4, 1.2)) : box_mesh(Vec3(c.real(.2, .6), c.real(.2, .6), c.real(.2, .6)));
        if (o.smooth && c.chance(.4)) { smooth_mesh(c, m, .2); r.smooth = true; }
        surface(m, mat, o.separated ? mat_mul(m_translate(gen_vec(c, .9)), mat_mul(m_scale(Vec3(.6)), place(c, Vec3(0), gen_dir(c), c.in(0, 2)))) : place(c, gen_vec(c, 1.2), gen_dir(c), c.in(0, 2))); d << "surface " << mat.str() << "; ";
    }
    // lights
    const int nl = c.in(1, o.max_lights);
    for (int i = 0; i < nl; i++) {
        std::vector<int> kinds; if (o.area) { kinds.push_back(0); kinds.push_back(0); } if (o.point) kinds.push_back(1); if (o.dir) kinds.push_back(2); if (o.env && !r.n_env) kinds.push_back(3);
        int k = c.pick(kinds); if (i == 0 && o.force_area) k = 0; if (i == 0 && o.force_env) k = 3;
        Vec3 L = gen_color(c, .2, 4); if (c.chance(.12)) L[c.in(0, 2)] = 0; const std::string n = "l" + std::to_string(i);
        const Vec3 from = unit(Vec3(c.real(-1, 1), c.real(.1, 1), c.real(-1, 1))) * (o.separated ? c.real(3., 4.) : c.real(2.6, 3.6));
        if (k == 0) {
            MeshSpec m = quad_mesh(c.real(.3, .9), c.real(.3, .9)); if (c.chance(.2)) m = box_mesh(Vec3(c.real(.2, .4), c.real(.2, .4), c.real(.2, .4)));
            if (o.small_lights && c.chance(.3)) { const double k = c.logreal(.004, .1); for (auto& v : m.ps) v = v * k; }
            MatSpec b; b.kind = M_Diffuse; b.name = n + "_mat"; b.key = "material::diffuse"; b.Kd = c.coin() ? Vec3(0) : gen_color(c, 0, .6); b.prop = { {"Kd", J(b.Kd)} };
            if (o.light_mat && c.coin()) b = material(n + "_mat");
            surface(m, b, o.separated ? place(c, from, unit(-from + gen_vec(c, 1)), 0) : place(c, from, unit(-from + gen_vec(c, 1)), c.in(0, 2)), J(L).dump()); r.n_area++; d << "area light at " << s6(from) << " Ke=" << s6(L) << " " << b.str() << "; ";
        } else if (k == 1) { s->add_child(0, s->create_primitive_node({ {"light", asset(n, "light::point", { {"Le", J(L)}, {"position", J(from)} })} })); r.n_point++; r.points.push_back(from); d << "point light at " << s6(from) << "; "; }
        else if (k == 2) { s->add_child(0, s->create_primitive_node({ {"light", asset(n, "light::directional", { {"Le", J(L)}, {"direction", J(-unit(from))} })} })); r.n_dir++; r.dirs.push_back(unit(from)); d << "directional light from " << s6(from) << "; "; }
        else if (o.env_tex && c.coin()) {
            const int w = c.in(1, 6), h = c.in(1, 6), ch = c.coin() ? 3 : 4; imgio::Bytes px(size_t(w) * h * ch); for (auto& x : px) x = (unsigned char)(c.chance(.2) ? 0 : c.in(1, 255)); px[c.in(0, w * h - 1) * ch + 1] = 200;
            const std::string path = c.scratch + "/tenv.png"; imgio::write(path, imgio::png(w, h, ch, px));
            Json p = { {"path", path}, {"scale", c.real(.3, 2)} }; if (c.coin()) p["rot"] = c.real(-180, 180);
            s->add_child(0, s->create_primitive_node({ {"light", asset(n, "light::env", p)} })); r.n_env++; d << "environment image " << w << "x" << h << "; ";
        }
        else { s->add_child(0, s->create_primitive_node({ {"light", asset(n, "light::envconst", { {"Le", J(L * .3)} })} })); r.n_env++; d << "constant environment; "; }
    }
    if (o.medium) {
        r.g = c.chance(.4) ? 0 : c.real(-.6, .6);
        const auto ph = r.g == 0 && c.coin() ? asset("phase", "phase::isotropic", {}) : asset("phase", "phase::hg", { {"g", r.g} });
        const Vec3 e(c.real(1, 2.4), c.real(1, 2.4), c.real(1, 2.4)), q = gen_vec(c, .4); r.blo = q - e; r.bhi = q + e;
        r.albedo = gen_color(c, .2, .95); r.density = c.logreal(.05, o.max_tau / 3); r.homog = c.coin();
        std::string m;
        if (r.homog) m = asset("medium", "medium::homogeneous", { {"density", r.density}, {"albedo", J(r.albedo)}, {"phase", ph}, {"bound_min", J(r.blo)}, {"bound_max", J(r.bhi)} });
        else {
            std::string al_loc = asset("vol_a", "volume::constant", { {"color", J(r.albedo)}, {"bound_min", J(r.blo)}, {"bound_max", J(r.bhi)} }); std::string v;
            switch (c.in(0, 3)) {
                case 3: { // several volumes; the albedo is the density-weighted mean of theirs
                    Json dn = Json::array(), al2 = Json::array(); const int k = c.in(1, 3);
                    for (int i = 0; i < k; i++) { const std::string n = "vol_" + std::to_string(i); const Vec3 at = q + gen_vec(c, .8), col = gen_color(c, .2, .95); const Json e2 = c.coin() ? Json{ {"scalar", r.density}, {"radius", c.real(.5, 1.5)}, {"pos", J(at)}, {"color", J(col)} } : Json{ {"scalar", r.density * 2}, {"sigma", J(Vec3(c.real(.3, .8)))}, {"pos", J(at)}, {"color", J(col)} };
                        const auto loc = asset(n, e2.count("radius") ? "volume::sphere" : "volume::gaussian", e2); dn.push_back(loc); al2.push_back(loc); }
                    v = asset("vol_d", "volume::multi", { {"volumes_den", dn}, {"volumes_alb", al2} }); if (c.chance(.7)) { al_loc = v; r.mixed_albedo = true; } break; }
                case 0: v = asset("vol_d", "volume::constant", { {"scalar", r.density}, {"bound_min", J(r.blo)}, {"bound_max", J(r.bhi)} }); break;
                case 1: v = asset("vol_d", "volume::sphere", { {"scalar", r.density}, {"radius", c.real(.8, 2)}, {"pos", J(q)} }); break;
                default: v = asset("vol_d", "volume::gaussian", { {"scalar", r.density * 2}, {"sigma", J(Vec3(c.real(.4, 1)))}, {"pos", J(q)} });
            }
            m = asset("medium", "medium::heterogeneous", { {"volume_density", v}, {"volume_albedo", al_loc}, {"phase", ph} });
        }
        s->add_child(0, s->create_primitive_node({ {"medium", m} }));
        d << (r.homog ? "homogeneous" : "heterogeneous") << " medium density " << s6(r.density) << " albedo " << s6(r.albedo) << " g=" << s6(r.g) << "; ";
    }
    // camera
    const Vec3 cp = unit(Vec3(c.real(-1, 1), c.real(-.05, .8), c.real(-1, 1)) + Vec3(1e-3, 0, 0)) * c.real(5, 7);
    r.cam = cp; r.aspect = c.coin() ? 1 : c.logreal(.5, 2);
    s->add_child(0, s->create_primitive_node({ {"camera", asset("camera", "camera::pinhole", { {"position", J(cp)}, {"center", J(gen_vec(c, .4))}, {"up", Json::array({ 0, 1, 0 })}, {"vfov", c.real(25, 60)}, {"aspect", r.aspect} })} }));
    d << "camera at " << s6(cp);
    s->build(); r.desc = d.str();
    return r;
}

} // namespace lmgen
