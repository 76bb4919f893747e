// Generator of whole assemblies of assets (every built-in component kind) with symbolic references, and a
// fingerprint of an asset's observable behaviour (exact results of its queries).
#pragma once
#include "lmgen.h"
#include "matgen.h"
#include "objgen.h"
#include <lm/scheduler.h>
#include <lm/serial.h>
#include <thread>

namespace asmgen {
using namespace lmgen;

struct ASpec { std::string name, key, kind; Json prop; };       // strings "@x" refer to asset x of the assembly
struct Assembly {
    std::vector<ASpec> as; std::map<std::string, Json> ops;     // ops: per scene, list of edits
    const ASpec* find(const std::string& n) const { for (auto& a : as) if (a.name == n) return &a; return nullptr; }
    std::vector<std::string> of(const std::string& kind) const { std::vector<std::string> r; for (auto& a : as) if (a.kind == kind) r.push_back(a.name); return r; }
};
inline Json resolve(const Json& j, const std::string& base) {
    if (j.is_string()) { const auto s = j.get<std::string>(); return !s.empty() && s[0] == '@' ? Json(base + "." + s.substr(1)) : j; }
    if (j.is_array()) { Json r = Json::array(); for (auto& e : j) r.push_back(resolve(e, base)); return r; }
    if (j.is_object()) { Json r = Json::object(); for (auto it = j.begin(); it != j.end(); ++it) r[it.key()] = resolve(it.value(), base); return r; }
    return j;
}
inline void refs(const Json& j, std::set<std::string>& out) {
    if (j.is_string()) { const auto s = j.get<std::string>(); if (!s.empty() && s[0] == '@') out.insert(s.substr(1)); }
    if (j.is_array() || j.is_object()) for (auto& e : j) refs(e, out);
}
inline std::string first(const std::string& s) { return s.substr(0, s.find('.')); }
inline Mat4 mat_from(const Json& j) { Mat4 m; int k = 0; for (int i = 0; i < 4; i++) for (int l = 0; l < 4; l++) m[i][l] = j[k++]; return m; }
inline Json mat_to(const Mat4& m) { Json j = Json::array(); for (int i = 0; i < 4; i++) for (int l = 0; l < 4; l++) j.push_back(m[i][l]); return j; }

inline Json lookat(Ctx& c) {
    const Vec3 p = gen_vec(c, 5); Vec3 d = gen_dir(c);
    return { {"position", J(p)}, {"center", J(p + d)}, {"up", J(std::fabs(d.y) < .9 ? Vec3(0, 1, 0) : Vec3(1, 0, 0))}, {"vfov", c.real(10, 90)}, {"aspect", c.real(.5, 2)} };
}
inline void put_image(const std::string& path, Ctx& c, int& w, int& h, int& ch) {
    w = c.in(1, 5); h = c.in(1, 5); ch = c.pick(std::vector<int>{ 1, 3, 3, 4 }); imgio::Bytes px(size_t(w) * h * ch); for (auto& x : px) x = (unsigned char)c.in(1, 255);
    imgio::write(path, imgio::png(w, h, ch, px));
}
// One asset of the kind; `n` is its name. Some kinds need others, which are appended first.
struct Gen {
    Ctx& c; Assembly& a; int uid = 0, dirs = 0;
    std::string add(const std::string& kind, const std::string& key, const Json& p, std::string name = "") { if (name.empty()) name = kind + std::to_string(uid++); a.as.push_back({ name, key, kind, p }); return name; }
    std::string any(const std::string& kind, const std::function<std::string()>& make) { auto v = a.of(kind); if (!v.empty() && c.chance(.7)) return c.pick(v); return make(); }
    std::string texture() {
        if (c.coin()) { Json p = { {"color", J(gen_color(c))} }; if (c.coin()) p["alpha"] = c.unit(); return add("tex", "texture::constant", p); }
        int w, h, ch; const std::string path = c.scratch + "/img" + std::to_string(uid) + ".png"; put_image(path, c, w, h, ch);
        return add("tex", "texture::bitmap", { {"path", path}, {"flip", c.coin()} });
    }
    std::string mesh() {
        if (c.chance(.8)) return add("mesh", "mesh::raw", gen_mesh(c, 8).json());
        const std::string path = obj_file();
        return add("mesh", "mesh::wavefrontobj", { {"path", path} });
    }
    std::string lmesh() { // triangles of positive area, for area lights
        MeshSpec m; const int n = c.in(1, 4); Json ps = Json::array(), fp = Json::array(), z = Json::array(), ns = Json::array();
        for (int i = 0; i < n; i++) {
            const Vec3 o = gen_vec(c, 4), e = gen_dir(c), p = std::fabs(e.x) < .8 ? Vec3(1, 0, 0) : Vec3(0, 1, 0); const Vec3 q = unit(glm::cross(e, p)); const double a = c.real(.2, 3), b = c.real(.2, 3), sh = c.real(-1, 1); const Vec3 nn = unit(glm::cross(e * a, q * b + e * sh));
            for (const Vec3& v : { o, o + e * a, o + q * b + e * sh }) for (int k = 0; k < 3; k++) ps.push_back(v[k]);
            for (int k = 0; k < 3; k++) { fp.push_back(3 * i + k); z.push_back(0); ns.push_back(nn[k]); }
        }
        Json fn = Json::array(); for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) fn.push_back(i);
        return add("lmesh", "mesh::raw", { {"ps", ps}, {"ns", ns}, {"ts", {0.0, 0.0}}, {"fs", { {"p", fp}, {"t", z}, {"n", fn} }} });
    }
    std::string obj_file() { // every model has a directory of its own
        const std::string keep = c.scratch; c.scratch += "/d" + std::to_string(dirs++); mkdir(c.scratch.c_str(), 0700); mkdir((c.scratch + "/sub").c_str(), 0700);
        const auto d = objgen::gen(c, false); const std::string path = c.scratch + "/o.obj";
        imgio::write(path, imgio::Bytes(d.obj.begin(), d.obj.end()));
        for (size_t i = 0; i < d.mtl.size(); i++) imgio::write(c.scratch + "/m" + std::to_string(i) + ".mtl", imgio::Bytes(d.mtl[i].begin(), d.mtl[i].end()));
        c.scratch = keep; return path;
    }
    std::string model() {
        const std::string path = obj_file();
        return add("model", "model::wavefrontobj", { {"path", path} });
    }
    std::string material(int depth = 0) {
        const auto sub = [&] { return any("mat", [&] { return material(1); }); };
        switch (c.weighted({ 5, 3, 1, 2, 1, depth ? 0 : 2, depth ? 0 : 2, depth ? 0 : 2, 2 })) {
            case 0: { Json p = Json::object(); if (c.coin()) p["mapKd"] = "@" + any("tex", [&] { return texture(); }); else p["Kd"] = J(gen_color(c)); return add("mat", "material::diffuse", p); }
            case 1: return add("mat", "material::glossy", { {"Ks", J(gen_color(c))}, {"ax", c.logreal(.05, 1)}, {"ay", c.logreal(.05, 1)} });
            case 2: return add("mat", "material::mirror", Json::object());
            case 3: return add("mat", "material::glass", { {"Ni", c.real(1.1, 2)} });
            case 4: return add("mat", "material::mask", Json::object());
            case 5: { const auto r = sub(); return add("mat", "material::proxy", { {"ref", "@" + r} }); }
            case 6: case 7: { Json p = Json::array(); const int n = c.in(1, 3); for (int i = 0; i < n; i++) { const auto r = simple(); p.push_back({ {"material", "@" + r}, {"weight", c.real(.05, 1)} }); }
                return add("mat", c.coin() ? "material::constant_weight_mixture_rr" : "material::constant_weight_mixture_marginalized", p); }
            default: { Json p = { {"Kd", J(gen_color(c))}, {"mapKd", ""}, {"Ks", J(gen_color(c))}, {"ax", c.logreal(.05, 1)}, {"ay", c.logreal(.05, 1)}, {"no_alpha_mask", c.coin()} };
                if (c.coin()) p["mapKd"] = "@" + any("tex", [&] { return texture(); }); return add("mat", "material::mixture_wavefrontobj", p); }
        }
    }
    std::string simple() { // material with one component
        return c.coin() ? add("mat", "material::diffuse", { {"Kd", J(gen_color(c))} }) : add("mat", "material::glossy", { {"Ks", J(gen_color(c))}, {"ax", c.logreal(.05, 1)}, {"ay", c.logreal(.05, 1)} });
    }
    std::string light(bool env_ok) {
        switch (c.weighted({ 5, 3, 2, env_ok ? 2 : 0, env_ok ? 2 : 0 })) {
            case 0: { const auto m = any("lmesh", [&] { return lmesh(); }); return add("light", "light::area", { {"Ke", J(gen_color(c, .1, 5))}, {"mesh", "@" + m} }); }
            case 1: return add("light", "light::point", { {"Le", J(gen_color(c, .1, 5))}, {"position", J(gen_vec(c, 5))} });
            case 2: return add("light", "light::directional", { {"Le", J(gen_color(c, .1, 5))}, {"direction", J(gen_dir(c))} });
            case 3: return add("env", "light::envconst", { {"Le", J(gen_color(c, .1, 5))} });
            default: { int w, h, ch; const std::string path = c.scratch + "/env" + std::to_string(uid) + ".png"; put_image(path, c, w, h, ch);
                Json p = { {"path", path} }; if (c.coin()) p["rot"] = c.real(-180, 180); if (c.coin()) p["scale"] = c.real(.1, 3); return add("env", "light::env", p); }
        }
    }
    std::string camera() {
        if (c.chance(.7)) return add("cam", "camera::pinhole", lookat(c));
        Mat4 m = gen_transform(c, 1); return add("cam", "camera::pinhole", { {"matrix", mat_to(m)}, {"vfov", c.real(10, 90)}, {"aspect", c.real(.5, 2)} });
    }
    std::string volume(bool multi = true) {
        Vec3 lo = gen_vec(c, 3), hi = lo + Vec3(c.real(.5, 4), c.real(.5, 4), c.real(.5, 4));
        switch (c.weighted({ 4, 1, 3, 3, multi ? 2 : 0 })) {
            case 0: return add("vol", "volume::constant", { {"bound_min", J(lo)}, {"bound_max", J(hi)}, {"color", J(gen_color(c))}, {"scalar", c.real(.05, 2)} });
            case 1: return add("volc", "volume::checker", { {"bound_min", J(lo)}, {"bound_max", J(hi)} });
            case 2: return add("vol", "volume::gaussian", { {"pos", J(lo)}, {"sigma", J(Vec3(c.real(.1, 2), c.real(.1, 2), c.real(.1, 2)))}, {"scalar", c.real(.1, 2)}, {"color", J(gen_color(c))} });
            case 3: return add("vol", "volume::sphere", { {"pos", J(lo)}, {"radius", c.real(.3, 3)}, {"scalar", c.real(.1, 2)}, {"color", J(gen_color(c))} });
            default: { Json d = Json::array(), al = Json::array(); const int n = c.in(1, 3); for (int i = 0; i < n; i++) { const auto v = any("vol", [&] { std::string s; do s = volume(false); while (a.find(s)->kind != "vol"); return s; }); d.push_back("@" + v); al.push_back("@" + v); }
                return add("volm", "volume::multi", { {"volumes_den", d}, {"volumes_alb", al} }); }
        }
    }
    std::string phase() { return c.coin() ? add("phase", "phase::isotropic", Json::object()) : add("phase", "phase::hg", { {"g", c.real(-.9, .9)} }); }
    std::string medium() {
        const auto p = any("phase", [&] { return phase(); });
        if (c.coin()) { Json j = { {"density", c.real(.05, 2)}, {"albedo", J(gen_color(c))}, {"phase", "@" + p} }; if (c.coin()) { const Vec3 lo = gen_vec(c, 3); j["bound_min"] = J(lo); j["bound_max"] = J(lo + Vec3(c.real(.5, 4))); } return add("med", "medium::homogeneous", j); }
        const auto v = any("vol", [&] { std::string s; do s = volume(false); while (a.find(s)->kind != "vol"); return s; });
        return add("med", "medium::heterogeneous", { {"volume_density", "@" + v}, {"volume_albedo", "@" + v}, {"phase", "@" + p} });
    }
    std::string film() { return add("film", "film::bitmap", { {"w", c.in(1, 4)}, {"h", c.in(1, 4)} }); }
    std::string accel() { return add("accel", "accel::sahbvh", Json::object()); }
    std::string scene(bool renderable) {
        const auto ac = accel(); // an accelerator belongs to one scene
        Json ops = Json::array(); std::vector<int> groups = { 0 }; int n = 1; bool env = false;
        const auto prim = [&](const Json& p) { ops.push_back({ {"op", "prim"}, {"p", p} }); const int times = c.chance(.15) ? 2 : 1; for (int k = 0; k < times; k++) ops.push_back({ {"op", "child"}, {"a", c.coin() ? 0 : c.pick(groups)}, {"b", n} }); n++; };
        const int m = c.in(renderable ? 2 : 0, 6);
        for (int i = 0; i < m; i++) switch (c.weighted({ 4, 3, 1, 3, 1, 1, 1 })) {
            case 0: prim({ {"mesh", "@" + any("mesh", [&] { return mesh(); })}, {"material", "@" + any("mat", [&] { return material(); })} }); break;
            case 1: ops.push_back({ {"op", "group"}, {"M", mat_to(gen_transform(c, c.in(0, 3)))} }); ops.push_back({ {"op", "child"}, {"a", c.pick(groups)}, {"b", n} }); groups.push_back(n++); break;
            case 2: ops.push_back({ {"op", "instgroup"} }); ops.push_back({ {"op", "child"}, {"a", c.pick(groups)}, {"b", n} }); groups.push_back(n++); break;
            case 3: { const auto l = light(!env); if (a.find(l)->kind == "env") env = true;
                if (a.find(l)->key == "light::area") prim({ {"mesh", a.find(l)->prop["mesh"]}, {"material", "@" + any("mat", [&] { return material(); })}, {"light", "@" + l} }); else prim({ {"light", "@" + l} }); break; }
            case 4: if (!renderable) prim({ {"camera", "@" + any("cam", [&] { return camera(); })} }); break;
            case 5: prim({ {"medium", "@" + any("med", [&] { return medium(); })} }); break;
            default: if (n < 30 && c.chance(.5)) { ops.push_back({ {"op", "model"}, {"a", 0}, {"m", "@" + any("model", [&] { return model(); })} }); n = 1000; } break; // last: node numbers unknown afterwards
            }
        if (n < 1000 && renderable) { prim({ {"camera", "@" + any("cam", [&] { return camera(); })} }); prim({ {"light", "@" + add("light", "light::point", { {"Le", J(gen_color(c, .1, 5))}, {"position", J(gen_vec(c, 5))} })} }); prim({ {"mesh", "@" + any("mesh", [&] { return mesh(); })}, {"material", "@" + any("mat", [&] { return material(); })} }); }
        else if (n >= 1000) { Json cut = Json::array(); for (auto& o : ops) { cut.push_back(o); if (o["op"].get<std::string>() == "model") break; } ops = cut; }
        if (renderable || c.coin()) ops.push_back({ {"op", "build"} });
        
        const auto s = add("scene", "scene::default", { {"accel", "@" + ac} }); a.ops[s] = ops; return s;
    }
    std::string renderer(const std::string& s) {
        const auto f = any("film", [&] { return film(); });
        switch (c.in(0, 3)) {
            case 0: return add("rend", "renderer::blank", { {"color", J(gen_color(c))}, {"output", "@" + f} });
            case 1: { Json p = { {"scene", "@" + s}, {"output", "@" + f}, {"bg_color", J(gen_color(c))} }; if (c.coin()) p["use_constant_color"] = c.coin(); if (c.coin()) p["visualize_normal"] = c.coin(); if (c.coin()) p["color"] = J(gen_color(c)); return add("rend", "renderer::raycast", p); }
            default: {
                const std::string k = c.pick(std::vector<std::string>{ "pt", "pt", "pt", "volpt", "volpt_naive", "lt", "bdpt", "bdptopt", "pt_naive_path", "pt_nee_path", "lt_nee_path" });
                Json p = { {"scene", "@" + s}, {"output", "@" + f}, {"scheduler", "sample"}, {"max_verts", c.in(2, 5)}, {"seed", c.in(0, 1000)}, {"spp", c.in(1, 3)}, {"num_samples", c.in(1, 30)} };
                if (k == "pt") { p["sampling_mode"] = c.pick(std::vector<std::string>{ "naive", "nee", "mis" }); p["primary_ray_sampling_mode"] = c.coin() ? "pixel" : "image"; }
                if (k.substr(0, 5) == "volpt") p["rr_prob"] = c.real(.1, .5);
                if (c.coin()) p["min_verts"] = c.in(2, 3);
                return add("rend", "renderer::" + k, p);
            }
        }
    }
};
inline Assembly gen(Ctx& c, bool with_renderers) {
    Assembly a; Gen g{ c, a };
    if (with_renderers) { const auto s = g.scene(true); const int n = c.in(1, 3); for (int i = 0; i < n; i++) g.renderer(s); }
    const int n = c.in(with_renderers ? 0 : 1, 6);
    for (int i = 0; i < n; i++) switch (c.in(0, 10)) {
        case 0: g.texture(); break; case 1: g.mesh(); break; case 2: g.material(); break; case 3: g.light(true); break; case 4: g.camera(); break; case 5: g.volume(); break;
        case 6: g.medium(); break; case 7: g.film(); break; case 8: g.scene(false); break; case 9: g.model(); break; default: g.phase(); break;
    }
    return a;
}
// Applies scene edits; `base` is the locator of the group.
inline void edit_scene(Scene* s, const Json& ops, const std::string& base) {
    for (auto& o : ops) {
        const std::string op = o["op"];
        if (op == "prim") s->create_primitive_node(resolve(o["p"], base));
        else if (op == "group") s->create_group_node(mat_from(o["M"]));
        else if (op == "instgroup") s->create_instance_group_node();
        else if (op == "child") s->add_child(o["a"], o["b"]);
        else if (op == "model") s->add_child_from_model(o["a"], resolve(o["m"], base));
        else if (op == "build") s->build();
    }
}
// The group that holds the asset (names may contain sub-groups, "s1.mesh0"); created on demand.
inline AssetGroup* group_of(AssetGroup* g, std::string& name) {
    size_t i; while ((i = name.find('.')) != std::string::npos) {
        const std::string n = name.substr(0, i); name = name.substr(i + 1);
        auto* q = lm::comp::get<AssetGroup>(g->loc() + "." + n); if (!q) q = dynamic_cast<AssetGroup*>(g->load_asset(n, "asset_group::default", Json::object())); g = q;
    }
    return g;
}
inline Json rename(const Json& j, const std::map<std::string, std::string>& m) {
    if (j.is_string()) { const auto s = j.get<std::string>(); if (s.empty() || s[0] != '@') return j; const auto it = m.find(s.substr(1)); return it == m.end() ? j : Json("@" + it->second); }
    if (j.is_array()) { Json r = Json::array(); for (auto& e : j) r.push_back(rename(e, m)); return r; }
    if (j.is_object()) { Json r = Json::object(); for (auto it = j.begin(); it != j.end(); ++it) r[it.key()] = rename(it.value(), m); return r; }
    return j;
}
// Moves some assets into sub-groups.
inline void nest(Ctx& c, Assembly& a) {
    std::map<std::string, std::string> m;
    for (auto& s : a.as) if (c.chance(.3)) m[s.name] = c.pick(std::vector<std::string>{ "s1.", "s2.", "s1.t." }) + s.name;
    Assembly b; for (auto& s : a.as) b.as.push_back({ m.count(s.name) ? m[s.name] : s.name, s.key, s.kind, rename(s.prop, m) });
    for (auto& o : a.ops) b.ops[m.count(o.first) ? m[o.first] : o.first] = rename(o.second, m);
    a = b;
}
inline Component* load_one(AssetGroup* g, const Assembly& a, const ASpec& s) {
    std::string n = s.name; auto* h = group_of(g, n);
    auto* p = h->load_asset(n, s.key, resolve(s.prop, g->loc()));
    if (!p) throw std::runtime_error("cannot load " + s.key);
    return p;
}
// Content of films (own pixels) and edits of scenes
inline void populate(AssetGroup* g, const Assembly& a, const ASpec& s, Component* p) {
    if (auto* f = dynamic_cast<Film*>(p)) { const auto z = f->size(); int k = 1; for (int y = 0; y < z.h; y++) for (int x = 0; x < z.w; x++) { f->set_pixel(x, y, Vec3(k * .37, -k * 1.5, 1.0 / k)); k++; } }
    if (auto* sc = dynamic_cast<Scene*>(p)) { auto it = a.ops.find(s.name); if (it != a.ops.end()) edit_scene(sc, it->second, g->loc()); }
}
inline void load_all(AssetGroup* g, const Assembly& a) { for (auto& s : a.as) { auto* p = load_one(g, a, s); populate(g, a, s, p); } }

// ------------------------------------------------------------------------------------------------
struct FP {
    std::vector<std::string> l; std::string base;
    template <class F> void q(const std::string& name, F f) {
        std::string r; try { r = f(); } catch (const lm::Exception&) { r = "<error>"; } catch (const std::exception& e) { r = "<exception>"; } l.push_back(name + " = " + r);
    }
    std::string rel(const std::string& loc) const { return loc.compare(0, base.size(), base) == 0 ? "~" + loc.substr(base.size()) : loc; }
};
inline std::string X(double v) { if (std::isnan(v)) return "nan"; char b[40]; snprintf(b, 40, "%a", v); return b; }
inline std::string X(Vec2 v) { return X(v.x) + "," + X(v.y); }
inline std::string X(Vec3 v) { return X(v.x) + "," + X(v.y) + "," + X(v.z); }
inline std::string X(const PointGeometry& g) { return std::string(g.degenerated ? "D" : "") + (g.infinite ? "I" : "") + (g.infinite ? X(g.wo) : X(g.p)) + (g.degenerated || g.infinite ? "" : ";" + X(g.n) + ";" + X(g.gn) + ";" + X(g.t)); }
inline Vec3 rv(pbt::Rand& r, double s = 3) { return Vec3(2 * r.u() - 1, 2 * r.u() - 1, 2 * r.u() - 1) * s; }

inline void fp_render(FP& f, const std::string& n, const Renderer* r, const Assembly* a, AssetGroup* g) {
    f.q(n + ".render", [&] {
        std::string out; std::exception_ptr ep;
        std::thread t([&] { try { lm::parallel::init("openmp", { {"num_threads", 1} }); const Json j = r->render(); if (j.contains("processed")) out += j["processed"].dump(); } catch (...) { ep = std::current_exception(); } });
        t.join(); if (ep) std::rethrow_exception(ep);
        const auto* s = a->find(n); const std::string fn = s->prop["output"].get<std::string>().substr(1);
        auto* film = lm::comp::get<Film>(g->loc() + "." + fn); const auto b = film->buffer(); for (int i = 0; i < b.w * b.h * 3; i++) out += " " + X(b.data[i]);
        return out;
    });
}
inline void fp_refs(FP& f, const std::string& n, Component* p, int depth = 0) {
    int k = 0;
    p->foreach_underlying([&](Component*& q, bool weak) {
        const std::string id = n + ".ref" + std::to_string(k++);
        if (!q) { f.l.push_back(id + " = null"); return; }
        f.l.push_back(id + " = " + (weak ? "weak " : "owned ") + q->key() + " " + f.rel(q->loc()) + (q->loc().empty() || lm::comp::get<Component>(q->loc()) == q ? "" : " NOT-THE-REGISTERED-INSTANCE"));
        if (!weak && depth < 4) fp_refs(f, id, q, depth + 1);
    });
}
inline void fingerprint(FP& f, const std::string& n, Component* comp) {
    pbt::Rand r(12345);
    f.q(n + ".key", [&] { return comp->key() + " " + f.rel(comp->loc()) + " " + comp->name(); });
    fp_refs(f, n, comp);
    if (auto* p = dynamic_cast<Texture*>(comp)) {
        f.q(n + ".size", [&] { const auto s = p->size(); return std::to_string(s.w) + "x" + std::to_string(s.h); });
        for (int i = 0; i < 6; i++) { const Vec2 t(3 * r.u() - 1, 3 * r.u() - 1); f.q(n + ".eval", [&] { return X(p->eval(t)) + (p->has_alpha() ? " a " + X(p->eval_alpha(t)) : ""); }); }
        f.q(n + ".pixel", [&] { const auto s = p->size(); std::string o; for (int y = 0; y < s.h; y++) for (int x = 0; x < s.w; x++) o += X(p->eval_by_pixel_coords(x, y)) + " "; return o; });
        f.q(n + ".buffer", [&] { const auto b = p->buffer(); std::string o = std::to_string(b.w) + " " + std::to_string(b.h) + " " + std::to_string(b.c); if (b.data) for (int i = 0; i < b.w * b.h * b.c; i++) o += " " + X(b.data[i]); return b.w ? o : std::string("-"); });
    }
    if (auto* p = dynamic_cast<Mesh*>(comp)) {
        f.q(n + ".tris", [&] { std::string o = std::to_string(p->num_triangles()); p->foreach_triangle([&](int k, const Mesh::Tri& t) { o += " #" + std::to_string(k); for (auto* q : { &t.p1, &t.p2, &t.p3 }) o += " " + X(q->p) + "/" + X(q->n) + "/" + X(q->t); }); return o; });
        for (int i = 0; i < 4 && p->num_triangles(); i++) { const int k = r.below(p->num_triangles()); double u = r.u(), v = r.u() * (1 - u); f.q(n + ".point", [&] { const auto s = p->surface_point(k, Vec2(u, v)); const auto t = p->triangle_at(k); return X(s.p) + X(s.n) + X(s.gn) + X(s.t) + X(t.p1.p); }); }
    }
    if (auto* p = dynamic_cast<Material*>(comp)) for (int i = 0; i < 8; i++) {
        const Vec3 nn = rand_dir(r), gn = unit(nn + rv(r, .2)); const auto g = PointGeometry::make_on_surface(rv(r), nn, gn, Vec2(3 * r.u() - 1, 3 * r.u() - 1));
        const Vec3 wi = rand_dir(r), wo = rand_dir(r); const Vec2 uc(r.u(), r.u()), ud(r.u(), r.u()), udc(r.u(), r.u()); const auto td = r.below(2) ? Material::TransDir::LE : Material::TransDir::EL; int comp_ = 0;
        f.q(n + ".comp", [&] { const auto s = p->sample_component({ uc }, g, wi); comp_ = s.comp; return std::to_string(s.comp) + " " + X(s.weight) + " " + X(p->pdf_component(s.comp, g, wi)) + (p->is_specular_component(s.comp) ? " spec" : ""); });
        f.q(n + ".dir", [&] { const auto s = p->sample_direction({ ud, udc }, g, wi, comp_, td); return s ? X(s->wo) + " " + X(s->weight) + " " + X(p->pdf_direction(g, wi, s->wo, comp_, false)) : std::string("none"); });
        f.q(n + ".eval", [&] { return X(p->eval(g, wi, wo, comp_, td, false)) + " " + X(p->pdf_direction(g, wi, wo, comp_, false)); });
        f.q(n + ".refl", [&] { return X(p->reflectance(g)); });
    }
    if (auto* p = dynamic_cast<Light*>(comp)) {
        f.q(n + ".flags", [&] { return std::string(p->is_specular() ? "s" : "") + (p->is_infinite() ? "i" : "") + (p->is_env() ? "e" : ""); });
        for (int i = 0; i < 6; i++) {
            const Mat4 M = m_translate(rv(r)); const Transform T(M); const Vec3 nn = rand_dir(r); const auto g = PointGeometry::make_on_surface(rv(r, 6), nn, nn);
            const Vec2 up(r.u(), r.u()), ud(r.u(), r.u()); const double upc = r.u(); const Vec3 wo = rand_dir(r);
            f.q(n + ".ray", [&] { const auto s = p->sample_ray({ up, upc, ud }, T); return s ? X(s->geom) + " " + X(s->wo) + " " + X(s->weight) + " " + X(p->pdf_ray(s->geom, s->wo, T, false)) + " " + X(p->eval(s->geom, s->wo, false)) : std::string("none"); });
            f.q(n + ".direct", [&] { const auto s = p->sample_direct({ up, upc, ud }, g, T); return s ? X(s->geom) + " " + X(s->wo) + " " + X(s->weight) + " " + X(p->pdf_direct(g, s->geom, T, s->wo, false)) : std::string("none"); });
            f.q(n + ".pos", [&] { const auto s = p->sample_position({ up, upc }, T); return s ? X(s->geom) + " " + X(s->weight) + " " + X(p->pdf_position(s->geom, T)) + (p->is_connectable(s->geom) ? "c" : "") : std::string("none"); });
            f.q(n + ".infdir", [&] { if (!p->is_env()) return std::string("-"); return X(p->eval(PointGeometry::make_infinite(wo), -wo, false)); });
        }
    }
    if (auto* p = dynamic_cast<Camera*>(comp)) {
        f.q(n + ".mats", [&] { std::string o; const Mat4 v = p->view_matrix(), q = p->projection_matrix(); for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) o += X(v[i][k]) + " " + X(q[i][k]) + " "; return o; });
        for (int i = 0; i < 6; i++) { const Vec2 u(r.u(), r.u()); const Vec3 w = rand_dir(r); const auto g = PointGeometry::make_degenerated(rv(r));
            f.q(n + ".ray", [&] { const auto a = p->primary_ray(u); const auto rp = p->raster_position(w); return X(a.o) + X(a.d) + (rp ? X(*rp) : "-") + X(p->eval(w)); });
            f.q(n + ".sample", [&] { const auto s = p->sample_ray({ u }); return s ? X(s->geom) + X(s->wo) + X(s->weight) + X(p->pdf_ray(s->geom, s->wo)) : std::string("none"); });
            f.q(n + ".direct", [&] { const auto s = p->sample_direct({ u }, g); return s ? X(s->geom) + X(s->wo) + X(s->weight) + X(p->pdf_direct(g, s->geom, s->wo)) : std::string("none"); }); }
    }
    if (auto* p = dynamic_cast<Film*>(comp)) f.q(n + ".film", [&] { std::string o = std::to_string(p->num_pixels()); const auto z = p->size(); const auto b = p->buffer(); o += " " + std::to_string(z.w) + "x" + std::to_string(z.h); for (int i = 0; i < b.w * b.h * 3; i++) o += " " + X(b.data[i]); return o; });
    if (auto* p = dynamic_cast<Volume*>(comp)) {
        f.q(n + ".vol", [&] { const auto b = p->bound(); return X(b.min) + X(b.max) + (p->has_scalar() ? "s" + X(p->max_scalar()) : "") + (p->has_color() ? "c" : ""); });
        for (int i = 0; i < 6; i++) { const Vec3 x = rv(r, 4); f.q(n + ".at", [&] { return (p->has_scalar() ? X(p->eval_scalar(x)) : "") + (p->has_color() ? X(p->eval_color(x)) : ""); }); }
    }
    if (auto* p = dynamic_cast<Phase*>(comp)) for (int i = 0; i < 4; i++) { const auto g = PointGeometry::make_degenerated(rv(r)); const Vec3 wi = rand_dir(r), wo = rand_dir(r); const Vec2 u(r.u(), r.u());
        f.q(n + ".phase", [&] { const auto s = p->sample_direction({ u }, g, wi); return (s ? X(s->wo) + X(s->weight) : "none") + X(p->pdf_direction(g, wi, wo)) + X(p->eval(g, wi, wo)); }); }
    if (auto* p = dynamic_cast<Medium*>(comp)) for (int i = 0; i < 6; i++) { const Ray ray{ rv(r, 5), rand_dir(r) }; const double t = r.u() * 10; const int seed = r.below(1000);
        f.q(n + ".medium", [&] { Rng g(seed); const auto s = p->sample_distance(g, ray, 0, t); const auto tr = p->eval_transmittance(g, ray, 0, t); return (s ? X(s->p) + X(s->weight) + (s->medium ? "m" : "") : "none") + X(tr) + (p->is_emitter() ? "e" : "") + (p->phase() ? f.rel(p->phase()->loc()) : ""); }); }
    if (auto* p = dynamic_cast<Accel*>(comp)) for (int i = 0; i < 10; i++) { const Ray ray{ rv(r, 6), rand_dir(r) }; f.q(n + ".isect", [&] { const auto h = p->intersect(ray, Eps, Inf); return h ? X(h->t) + X(h->uv) + " " + std::to_string(h->primitive) + "/" + std::to_string(h->face) : std::string("none"); }); }
    if (auto* p = dynamic_cast<Model*>(comp)) f.q(n + ".model", [&] { std::string o; p->create_primitives([&](Component* m, Component* t, Component* l) { for (auto* q : { m, t, l }) o += q ? f.rel(q->loc()) + " " : "- "; });
        return o; });
    if (auto* p = dynamic_cast<Model*>(comp)) p->create_primitives([&](Component* m, Component* t, Component* l) { for (auto* q : { m, t, l }) if (q) fingerprint(f, n + ":" + q->name(), q); });
    if (auto* p = dynamic_cast<Scene*>(comp)) {
        f.q(n + ".nodes", [&] { std::string o = std::to_string(p->num_nodes()) + " cam " + std::to_string(p->camera_node()) + " env " + std::to_string(p->env_light_node()) + " med " + std::to_string(p->medium_node()) + " lights " + std::to_string(p->num_lights());
            for (int i = 0; i < p->num_nodes(); i++) { const auto& d = p->node_at(i); o += " | " + std::to_string(d.index); if (d.type == SceneNodeType::Primitive) { for (const Component* q : { (const Component*)d.primitive.mesh, (const Component*)d.primitive.material, (const Component*)d.primitive.light, (const Component*)d.primitive.camera, (const Component*)d.primitive.medium }) o += q ? " " + f.rel(q->loc()) : " -"; }
                else { o += d.group.instanced ? " I" : " G"; for (int k : d.group.children) o += " " + std::to_string(k); if (d.group.local_transform) for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) o += " " + X((*d.group.local_transform)[a][b]); } }
            o += p->accel() ? " accel " + f.rel(p->accel()->loc()) : ""; return o; });
        f.q(n + ".trav", [&] { std::string o; p->traverse_primitive_nodes([&](const SceneNode& d, Mat4 M) { o += " " + std::to_string(d.index); for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) o += " " + X(M[a][b]); }); return o; });
        f.q(n + ".lights", [&] { std::string o; for (int i = 0; i < p->num_lights(); i++) { const auto l = p->light_primitive_index_at(i); o += std::to_string(l.index) + ":" + std::to_string(p->light_index_at(l.index)) + " " + X(p->pdf_light_selection(i)) + " "; for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) o += X(l.global_transform.M[a][b]) + " "; } return o; });
        if (p->accel()) for (int i = 0; i < 8; i++) { const Ray ray{ rv(r, 6), rand_dir(r) }; f.q(n + ".isect", [&] { const auto h = p->intersect(ray); if (!h) return std::string("none"); return std::to_string(h->primitive) + " " + X(h->geom) + (p->is_light(*h) ? "L" : ""); }); }
    }
}
// Assets in an order in which references come first
inline std::vector<std::string> topo(const Assembly& a) {
    std::vector<std::string> out; std::set<std::string> seen;
    std::function<void(const std::string&)> go = [&](const std::string& n) {
        if (!seen.insert(n).second) return; const auto* s = a.find(n); if (!s) return;
        std::set<std::string> r; refs(s->prop, r); auto it = a.ops.find(n); if (it != a.ops.end()) refs(it->second, r);
        for (auto& x : r) go(x); out.push_back(n);
    };
    for (auto& s : a.as) go(s.name);
    return out;
}
inline bool reaches(const Assembly& a, const std::set<std::string>& from, const std::string& to) {
    std::set<std::string> seen; std::vector<std::string> st(from.begin(), from.end());
    while (!st.empty()) { const auto n = st.back(); st.pop_back(); if (n == to) return true; if (!seen.insert(n).second) continue; const auto* s = a.find(n); if (!s) continue; std::set<std::string> r; refs(s->prop, r); auto it = a.ops.find(n); if (it != a.ops.end()) refs(it->second, r); for (auto& x : r) st.push_back(x); }
    return false;
}
inline FP fingerprint_all(AssetGroup* g, const Assembly& a, bool render = true) {
    FP f; f.base = g->loc();
    for (auto& s : a.as) { auto* p = lm::comp::get<Component>(g->loc() + "." + s.name); if (!p) { f.l.push_back(s.name + " = missing"); continue; } fingerprint(f, s.name, p); }
    if (render) for (auto& s : a.as) if (s.kind == "rend") { auto* p = lm::comp::get<Renderer>(g->loc() + "." + s.name); if (p) fp_render(f, s.name, p, &a, g); }
    return f;
}
inline std::string diff(const FP& a, const FP& b) {
    for (size_t i = 0; i < std::max(a.l.size(), b.l.size()); i++) {
        const std::string x = i < a.l.size() ? a.l[i] : "<nothing>", y = i < b.l.size() ? b.l[i] : "<nothing>";
        if (x != y) return x.substr(0, 600) + "   BUT   " + y.substr(0, 600);
    }
    return "";
}
} // namespace asmgen
