// Generators and helpers shared by the harnesses (public API of the code under test only).
#pragma once
#include <pch.h>
#include <lm/lm.h>
#include "pbt.h"

namespace lmgen {
using namespace lm;
using pbt::Ctx;
using LD = long double;

inline void quiet() { lm::log::set_severity(100000); }

// Logger that discards everything; keeps the runs quiet and cheap.
inline void init_lm() {
    lm::init();
    quiet();
}

inline std::string S(double v) { char b[40]; snprintf(b, 40, "%.17g", v); return b; }
inline std::string S(Vec2 v) { return "(" + S(v.x) + "," + S(v.y) + ")"; }
inline std::string S(Vec3 v) { return "(" + S(v.x) + "," + S(v.y) + "," + S(v.z) + ")"; }
inline std::string s6(double v) { char b[40]; snprintf(b, 40, "%.6g", v); return b; }
inline std::string s6(Vec3 v) { return "(" + s6(v.x) + "," + s6(v.y) + "," + s6(v.z) + ")"; }

inline Json J(Vec3 v) { return Json::array({ v.x, v.y, v.z }); }
inline Json J(Vec2 v) { return Json::array({ v.x, v.y }); }

inline bool finite(Vec3 v) { return std::isfinite(v.x) && std::isfinite(v.y) && std::isfinite(v.z); }
inline bool near(double a, double b, double rel, double abs_ = 0) {
    if (a == b) return true;
    if (!std::isfinite(a) || !std::isfinite(b)) return false;
    return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}
inline bool near(Vec3 a, Vec3 b, double rel, double abs_ = 0) {
    const double m = std::max({ std::fabs(a.x), std::fabs(a.y), std::fabs(a.z), std::fabs(b.x), std::fabs(b.y), std::fabs(b.z) });
    for (int i = 0; i < 3; i++) {
        if (!std::isfinite(a[i]) || !std::isfinite(b[i])) { if (!(a[i] == b[i])) return false; continue; }
        if (!(std::fabs(a[i] - b[i]) <= abs_ + rel * m)) return false;
    }
    return true;
}
// A point of the scene is only defined up to rounding: relative to the magnitude of its coordinates.
inline Vec3 unit(Vec3 v) { return v / std::sqrt(v.x * v.x + v.y * v.y + v.z * v.z); }

inline Vec3 gen_dir(Ctx& c) {
    switch (c.weighted({ 8, 2, 1, 1 })) {
        case 1: { // axis aligned, the other components zero of either sign
            Vec3 d(0); const int z = c.in(0, 7); for (int i = 0; i < 3; i++) if (z >> i & 1) d[i] = -0.0; d[c.in(0, 2)] = c.coin() ? 1 : -1; return d;
        }
        case 2: { // in a coordinate plane
            const int a = c.in(0, 2); const double t = c.real(0, 6.283185307179586);
            Vec3 d(0); if (c.coin()) d[a] = -0.0; d[(a + 1) % 3] = std::cos(t); d[(a + 2) % 3] = std::sin(t); return unit(d);
        }
        case 3: { // nearly axis aligned
            Vec3 d(0); d[c.in(0, 2)] = c.coin() ? 1 : -1;
            d += Vec3(c.real(-1, 1), c.real(-1, 1), c.real(-1, 1)) * std::pow(10.0, -c.in(2, 9)); return unit(d);
        }
        default: {
            const double z = c.real(-1, 1), t = c.real(0, 6.283185307179586), r = std::sqrt(std::max(0.0, 1 - z * z));
            return unit(Vec3(r * std::cos(t), r * std::sin(t), z));
        }
    }
}
inline Vec3 rand_dir(pbt::Rand& r) {
    const double z = 2 * r.u() - 1, t = 6.283185307179586 * r.u(), q = std::sqrt(std::max(0.0, 1 - z * z));
    return Vec3(q * std::cos(t), q * std::sin(t), z);
}
inline Vec3 gen_vec(Ctx& c, double s) { return Vec3(c.nice(-s, s), c.nice(-s, s), c.nice(-s, s)); }
inline Vec3 gen_color(Ctx& c, double lo = 0, double hi = 1) {
    if (c.chance(.25)) { return Vec3(c.real(lo, hi)); }
    if (lo == 0 && c.chance(.15)) { Vec3 v(0); const int k = c.in(0, 2); v[k] = c.real(.3 * hi, hi); if (c.coin()) v[(k + 1) % 3] = c.real(lo, hi); return v; }   // saturated
    return Vec3(c.real(lo, hi), c.real(lo, hi), c.real(lo, hi));
}

// --- matrices (own composition, column-major like glm) -----------------------------------------
inline Mat4 mat_mul(const Mat4& a, const Mat4& b) {
    Mat4 r;
    for (int j = 0; j < 4; j++) for (int i = 0; i < 4; i++) {
        LD s = 0; for (int k = 0; k < 4; k++) s += LD(a[k][i]) * LD(b[j][k]); r[j][i] = double(s);
    }
    return r;
}
inline Vec3 xform_point(const Mat4& m, Vec3 p) {
    Vec3 r;
    for (int i = 0; i < 3; i++) r[i] = double(LD(m[0][i]) * p.x + LD(m[1][i]) * p.y + LD(m[2][i]) * p.z + LD(m[3][i]));
    return r;
}
inline LD det3(const Mat4& m) {
    return LD(m[0][0]) * (LD(m[1][1]) * m[2][2] - LD(m[2][1]) * m[1][2])
         - LD(m[1][0]) * (LD(m[0][1]) * m[2][2] - LD(m[2][1]) * m[0][2])
         + LD(m[2][0]) * (LD(m[0][1]) * m[1][2] - LD(m[1][1]) * m[0][2]);
}
// Normal transform: cofactor matrix times sign(det), normalised.
inline Vec3 xform_normal(const Mat4& m, Vec3 n) {
    auto col = [&](int j) { return Vec3(m[j][0], m[j][1], m[j][2]); };
    auto crs = [](Vec3 a, Vec3 b) { return Vec3(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); };
    const Vec3 c0 = crs(col(1), col(2)), c1 = crs(col(2), col(0)), c2 = crs(col(0), col(1));
    Vec3 r = c0 * n.x + c1 * n.y + c2 * n.z;
    if (det3(m) < 0) r = -r;
    return unit(r);
}
inline Vec3 cross_(Vec3 a, Vec3 b) { return Vec3(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }
inline double dot_(Vec3 a, Vec3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }

inline Mat4 m_translate(Vec3 t) { Mat4 m(1.0); m[3][0] = t.x; m[3][1] = t.y; m[3][2] = t.z; return m; }
inline Mat4 m_scale(Vec3 s) { Mat4 m(1.0); m[0][0] = s.x; m[1][1] = s.y; m[2][2] = s.z; return m; }
inline Mat4 m_rotate(double a, Vec3 k) {
    const double c = std::cos(a), s = std::sin(a);
    Mat4 m(1.0);
    for (int j = 0; j < 3; j++) {
        Vec3 e(0); e[j] = 1;
        const Vec3 r = e * c + cross_(k, e) * s + k * (dot_(k, e) * (1 - c));
        for (int i = 0; i < 3; i++) m[j][i] = r[i];
    }
    return m;
}
// kind: 0 identity 1 rigid 2 uniform scale 3 general (non-uniform / mirrored / sheared)
inline Mat4 gen_transform(Ctx& c, int kind, double tscale = 4) {
    Mat4 m(1.0);
    if (kind == 0) return m;
    if (c.chance(.8)) m = mat_mul(m, m_translate(gen_vec(c, tscale)));
    if (c.chance(.8)) m = mat_mul(m, m_rotate(c.nice(-3.2, 3.2), gen_dir(c)));
    if (kind == 2) m = mat_mul(m, m_scale(Vec3(c.logreal(.3, 3))));
    if (kind == 3) {
        Vec3 s(c.logreal(.3, 3), c.logreal(.3, 3), c.logreal(.3, 3));
        if (c.chance(.3)) s[c.in(0, 2)] *= -1;
        m = mat_mul(m, m_scale(s));
        if (c.chance(.3)) { Mat4 h(1.0); h[c.in(0, 1)][2] = c.real(-1, 1); m = mat_mul(m, h); }
    }
    return m;
}

// --- meshes --------------------------------------------------------------------------------------
struct MeshSpec {
    std::vector<Vec3> ps, ns; std::vector<Vec2> ts;
    struct I { int p, t, n; };
    std::vector<I> fs;
    int num_tris() const { return int(fs.size()) / 3; }
    Json json() const {
        Json p = Json::array(), n = Json::array(), t = Json::array(), fp = Json::array(), ft = Json::array(), fn = Json::array();
        for (auto& v : ps) { p.push_back(v.x); p.push_back(v.y); p.push_back(v.z); }
        for (auto& v : ns) { n.push_back(v.x); n.push_back(v.y); n.push_back(v.z); }
        for (auto& v : ts) { t.push_back(v.x); t.push_back(v.y); }
        for (auto& f : fs) { fp.push_back(f.p); ft.push_back(f.t); fn.push_back(f.n); }
        return { {"ps", p}, {"ns", n}, {"ts", t}, {"fs", {{"p", fp}, {"t", ft}, {"n", fn}}} };
    }
};
inline Vec3 tri_cross(Vec3 a, Vec3 b, Vec3 c) { return cross_(b - a, c - a); }

// Finishes a mesh given positions and position indices: normals and texture coordinates.
inline void finish_mesh(Ctx& c, MeshSpec& m, const std::vector<int>& idx) {
    const int nt = c.in(1, 6);
    for (int i = 0; i < nt; i++) m.ts.push_back(Vec2(c.nice(-2, 2), c.nice(-2, 2)));
    const bool smooth = c.coin();
    for (size_t f = 0; f + 2 < idx.size(); f += 3) {
        Vec3 g = tri_cross(m.ps[idx[f]], m.ps[idx[f + 1]], m.ps[idx[f + 2]]);
        const double l = std::sqrt(dot_(g, g));
        g = l > 0 ? g / l : Vec3(0, 0, 1);
        for (int k = 0; k < 3; k++) {
            Vec3 n = g;
            if (smooth) n = unit(g + Vec3(c.real(-.4, .4), c.real(-.4, .4), c.real(-.4, .4)));
            if (k == 0 || (smooth && !c.chance(.1))) m.ns.push_back(n);
            m.fs.push_back({ idx[f + k], int(c.raw(nt - 1)), int(m.ns.size()) - 1 });
        }
    }
}

inline MeshSpec gen_mesh(Ctx& c, int max_tris, double extent = 4) {
    MeshSpec m; std::vector<int> idx;
    const int kind = c.weighted({ 8, 6, 6, 4, 1 });
    if (kind == 0) { // soup
        const int n = c.in(1, max_tris);
        const double sz = (c.chance(.15) ? c.logreal(2e-5, .05) : c.logreal(.05, 1)) * extent;
        for (int i = 0; i < n; i++) {
            const Vec3 o = Vec3(c.real(-1, 1), c.real(-1, 1), c.real(-1, 1)) * extent;
            for (int k = 0; k < 3; k++) { idx.push_back(int(m.ps.size())); m.ps.push_back(o + Vec3(c.real(-1, 1), c.real(-1, 1), c.real(-1, 1)) * sz); }
        }
    } else if (kind == 1) { // lattice: shared vertices, coplanar and axis-aligned triangles, degenerate ones
        const int nv = c.in(3, 12), n = c.in(1, std::min(max_tris, 24));
        const int e = int(extent);
        for (int i = 0; i < nv; i++) m.ps.push_back(Vec3(c.in(-e, e), c.in(-e, e), c.in(-e, e)));
        for (int i = 0; i < 3 * n; i++) idx.push_back(c.in(0, nv - 1));
    } else if (kind == 2) { // height field grid
        const int a = c.in(1, std::max(1, int(std::sqrt(max_tris / 2.0)))), b = c.in(1, std::max(1, int(std::sqrt(max_tris / 2.0))));
        const double h = c.coin() ? 0 : c.real(0, extent / 2);
        for (int j = 0; j <= b; j++) for (int i = 0; i <= a; i++)
            m.ps.push_back(Vec3((2.0 * i / a - 1) * extent, h == 0 ? 0.0 : h * c.unit(), (2.0 * j / b - 1) * extent));
        for (int j = 0; j < b; j++) for (int i = 0; i < a; i++) {
            const int q = j * (a + 1) + i;
            for (int k : { q, q + a + 1, q + 1, q + 1, q + a + 1, q + a + 2 }) idx.push_back(k);
        }
    } else if (kind == 4) { // geometric progression of triangles (very unbalanced hierarchy)
        const int n = c.in(2, std::max(160, max_tris));
        const double q = c.real(.3, .9); double sz = extent, x = 0;
        const Vec3 ax = gen_dir(c), b1 = gen_dir(c), b2 = gen_dir(c);
        for (int i = 0; i < n; i++, sz *= q) {
            for (Vec3 w : { Vec3(0), b1, b2 }) { idx.push_back(int(m.ps.size())); m.ps.push_back(ax * x + w * sz); }
            x += sz;
        }
    } else { // box
        for (int i = 0; i < 8; i++) m.ps.push_back(Vec3(i & 1 ? 1 : -1, i & 2 ? 1 : -1, i & 4 ? 1 : -1) * (extent / 2));
        const int q[6][4] = { {0,4,6,2},{1,3,7,5},{0,1,5,4},{2,6,7,3},{0,2,3,1},{4,5,7,6} };
        for (auto& f : q) for (int k : { 0, 1, 2, 0, 2, 3 }) idx.push_back(f[k]);
    }
    finish_mesh(c, m, idx);
    return m;
}

// --- scene graph model ---------------------------------------------------------------------------
struct FlatTri { Vec3 p[3], n[3]; Vec2 t[3]; Mat4 M; int node, face; Vec3 w[3]; };

struct NodeSpec { bool group; bool instanced = false; bool has_xf = false; Mat4 M; std::vector<int> children; int mesh = -1; };

struct GraphModel {
    std::vector<MeshSpec> meshes;
    std::vector<NodeSpec> nodes;    // model of the graph; index = node index in the scene
    bool env = false; int env_node = -1;
    std::vector<FlatTri> tris;
    void flatten(int n, const Mat4& M) {
        const auto& s = nodes[n];
        if (!s.group) {
            if (s.mesh < 0) return;
            const auto& m = meshes[s.mesh];
            for (int f = 0; f < m.num_tris(); f++) {
                FlatTri t; t.M = M; t.node = n; t.face = f;
                for (int k = 0; k < 3; k++) {
                    const auto& i = m.fs[3 * f + k];
                    t.p[k] = m.ps[i.p]; t.n[k] = m.ns[i.n]; t.t[k] = m.ts[i.t];
                    t.w[k] = xform_point(M, t.p[k]);
                }
                tris.push_back(t);
            }
            return;
        }
        const Mat4 N = s.has_xf ? mat_mul(M, s.M) : M;
        for (int ch : s.children) flatten(ch, N);
    }
};

struct Cand { int tri; LD t, u, v; bool sure; bool tiny = false; };   // tiny: smaller than what rounding of its vertices resolves

// All triangles the ray crosses in [tmin,tmax], exhaustively and in extended precision. `sure` crossings are
// well inside the triangle and the range; the others may be reported either way.
inline std::vector<Cand> crossings(const std::vector<FlatTri>& tris, const Ray& ray, Float tmin, Float tmax) {
    std::vector<Cand> cand;
    for (int i = 0; i < int(tris.size()); i++) {
        const auto& t = tris[i];
        LD e1[3], e2[3], tv[3], d[3];
        for (int k = 0; k < 3; k++) {
            e1[k] = LD(t.w[1][k]) - t.w[0][k]; e2[k] = LD(t.w[2][k]) - t.w[0][k];
            tv[k] = LD(ray.o[k]) - t.w[0][k]; d[k] = ray.d[k];
        }
        auto det = [](const LD* a, const LD* b, const LD* c_) {
            return a[0] * (b[1] * c_[2] - b[2] * c_[1]) - b[0] * (a[1] * c_[2] - a[2] * c_[1]) + c_[0] * (a[1] * b[2] - a[2] * b[1]);
        };
        // tv + t d = u e1 + v e2   <=>  [-d e1 e2] (t u v)^T = tv
        LD nd[3] = { -d[0], -d[1], -d[2] };
        const LD D = det(nd, e1, e2);
        const LD l1 = std::sqrt(double(e1[0]*e1[0]+e1[1]*e1[1]+e1[2]*e1[2])), l2 = std::sqrt(double(e2[0]*e2[0]+e2[1]*e2[1]+e2[2]*e2[2]));
        double wm = 1; for (auto& w : t.w) for (int k = 0; k < 3; k++) wm = std::max(wm, std::fabs(double(w[k])));
        const double rl = 4e-15 * wm / (double(std::min(l1, l2)) + 1e-300);   // relative rounding of the edges
        if (rl > 1e-7 || (rl > 1e-9 && std::fabs(double(D)) < 30 * rl * double(l1 * l2))) {
            const double at = -double(tv[0]*d[0] + tv[1]*d[1] + tv[2]*d[2]);
            const Vec3 q = ray.o + ray.d * at - t.w[0];
            if (glm::length(q) < 2 * double(l1 + l2) + 1e-9 * (wm + std::fabs(at)) && at > tmin - 3 * double(l1 + l2) - 1e-9 * wm && at < tmax + 3 * double(l1 + l2) + 1e-9 * wm) cand.push_back({ i, at, 0, 0, false, true });
            continue;
        }
        if (std::fabs(double(D)) <= 1e-11 * double(l1 * l2)) continue;         // not intersectable at working precision
        const LD tt = det(tv, e1, e2) / D, u = det(nd, tv, e2) / D, v = det(nd, e1, tv) / D;
        const LD scale = 1 + std::fabs(double(ray.o.x)) + std::fabs(double(ray.o.y)) + std::fabs(double(ray.o.z)) + std::fabs(double(tt));
        const LD cond = (l1 * l2 + 1e-30L) / std::fabs(double(D));      // loss of accuracy at grazing angles
        const LD m = 1e-10L * scale * cond * (1 + 1 / (l1 + 1e-30L) + 1 / (l2 + 1e-30L)), dt = 1e-10L * scale * cond;
        if (u < -m || v < -m || u + v > 1 + m || tt < tmin - dt || tt > tmax + dt) continue;
        const bool sure = std::fabs(double(D)) > 1e-7 * double(l1 * l2) && u > m && v > m && u + v < 1 - m && tt > tmin + dt && tt < tmax - dt && m < 1e-4L;
        cand.push_back({ i, tt, u, v, sure, false });
    }
    return cand;
}

inline std::string asset(const std::string& name, const std::string& key, const Json& prop) {
    auto* p = lm::assets()->load_asset(name, key, prop);
    if (!p) throw std::runtime_error("cannot load asset " + key);
    return p->loc();
}
template <class T> T* get(const std::string& loc) { return lm::comp::get<T>(loc); }

} // namespace lmgen

namespace lmgen {

// Creates meshes and a random acyclic graph in `scene`, mirrored in `md`.
inline void gen_meshes(Ctx& c, GraphModel& md, int nm, int max_tris) {
    for (int i = 0; i < nm; i++) {
        md.meshes.push_back(gen_mesh(c, max_tris));
        asset("mesh" + std::to_string(i), "mesh::raw", md.meshes.back().json());
    }
}
inline void gen_graph(Ctx& c, Scene* scene, GraphModel& md, int nn) {
    const int nm = int(md.meshes.size());
    for (int i = 0; i < nn; i++) {
        const int kind = c.weighted({ 4, 3, 1 });
        if (kind == 0) {
            const int m = c.in(0, nm - 1);
            const int id = scene->create_primitive_node({ {"mesh", "$.assets.mesh" + std::to_string(m)}, {"material", "$.assets.mat"} });
            if (id != int(md.nodes.size())) c.fail("node-index", "unexpected node index");
            NodeSpec s; s.group = false; s.mesh = m; md.nodes.push_back(s);
        } else if (kind == 1) {
            NodeSpec s; s.group = true; s.has_xf = true; s.M = gen_transform(c, c.in(0, 3));
            scene->create_group_node(s.M); md.nodes.push_back(s);
        } else {
            NodeSpec s; s.group = true; s.instanced = true; scene->create_instance_group_node(); md.nodes.push_back(s);
        }
        // Attach: to the root or to an earlier group (keeps the graph acyclic); possibly twice (instancing)
        const int me = int(md.nodes.size()) - 1;
        const int times = c.chance(.25) ? 2 : 1;
        for (int k = 0; k < times; k++) {
            std::vector<int> gs; for (int g = 0; g < me; g++) if (md.nodes[g].group) gs.push_back(g);
            const int par = c.coin() ? 0 : c.pick(gs);
            scene->add_child(par, me); md.nodes[par].children.push_back(me);
        }
    }
}
// A large and distant quad facing the origin. Rays and points on it are left out (rounding at that distance), it is only looked at.
inline void gen_far(Ctx& c, Scene* scene, GraphModel& md) {
    MeshSpec q; q.ps = { Vec3(-1, -1, 0), Vec3(1, -1, 0), Vec3(1, 1, 0), Vec3(-1, 1, 0) }; q.ns = { Vec3(0, 0, 1) }; q.ts = { Vec2(0, 0), Vec2(1, 1) };
    q.fs = { {0, 0, 0}, {1, 0, 0}, {2, 1, 0}, {0, 0, 0}, {2, 1, 0}, {3, 0, 0} };
    const int m = int(md.meshes.size()); md.meshes.push_back(q); asset("mesh" + std::to_string(m), "mesh::raw", q.json());
    const double R = c.logreal(1e3, 1e6); const Vec3 d = gen_dir(c); Vec3 u = std::fabs(d.x) < .6 ? Vec3(1, 0, 0) : Vec3(0, 1, 0); u = unit(cross_(d, u)); const Vec3 v = cross_(d, u);
    NodeSpec g; g.group = true; g.has_xf = true; g.M = Mat4(Vec4(u * R, 0), Vec4(v * R, 0), Vec4(d * R, 0), Vec4(d * R, 1));
    const int gi = scene->create_group_node(g.M); md.nodes.push_back(g); md.nodes[0].children.push_back(gi); scene->add_child(0, gi);
    const int id = scene->create_primitive_node({ {"mesh", "$.assets.mesh" + std::to_string(m)}, {"material", "$.assets.mat"} });
    NodeSpec s; s.group = false; s.mesh = m; md.nodes.push_back(s); md.nodes[gi].children.push_back(id); scene->add_child(gi, id);
    c.label("far-geometry");
}
inline bool too_far(Vec3 p) { return dot_(p, p) > 1e5; }
inline void gen_env(Scene* scene, GraphModel& md) {
    asset("env", "light::envconst", { {"Le", Json::array({1., 1., 1.})} });
    md.env_node = scene->create_primitive_node({ {"light", "$.assets.env"} });
    NodeSpec s; s.group = false; md.nodes.push_back(s); md.nodes[0].children.push_back(md.env_node);
    scene->add_child(0, md.env_node); md.env = true;
}

} // namespace lmgen
