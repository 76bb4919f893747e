// P03: histories of scene edits against a reference graph model.
#include "lmgen.h"
#include <fstream>
using namespace lmgen;

namespace {

struct RNode {
    bool group = false, instanced = false, has_xf = false; Mat4 M;
    std::vector<int> children;
    std::string mesh, material, light, camera, medium;      // locators ("" = none)
};
struct Ref {
    std::vector<RNode> nodes; int camera = -1, env = -1, medium = -1;
    void clear() { nodes.assign(1, RNode{}); nodes[0].group = true; camera = env = medium = -1; }
    bool reaches(int from, int to) const {
        if (from == to) return true;
        for (int ch : nodes[from].children) if (reaches(ch, to)) return true;
        return false;
    }
    long long paths(int n) const { long long s = 1; for (int ch : nodes[n].children) { s += paths(ch); if (s > 2000) return s; } return s; }
    void walk(int n, const Mat4& M, const std::function<void(int, const Mat4&)>& f) const {
        f(n, M);
        const Mat4 N = nodes[n].has_xf ? mat_mul(M, nodes[n].M) : M;
        for (int ch : nodes[n].children) walk(ch, N, f);
    }
};
std::string locof(const Component* p) { return p ? p->loc() : std::string(); }
bool near_m(const Mat4& a, const Mat4& b) {
    double m = 1; for (int j = 0; j < 4; j++) for (int i = 0; i < 4; i++) m = std::max(m, std::fabs(a[j][i]));
    for (int j = 0; j < 4; j++) for (int i = 0; i < 4; i++) if (!(std::fabs(a[j][i] - b[j][i]) <= 1e-9 * m)) return false;
    return true;
}

void check_state(Ctx& c, Scene* sc, const Ref& r, const std::string& h) {
    const auto msg = [&](const std::string& s) { return s + " after: " + h; };
    c.check(sc->num_nodes() == int(r.nodes.size()), "num-nodes", [&] { return msg("node count " + std::to_string(sc->num_nodes()) + ", expected " + std::to_string(r.nodes.size())); });
    c.check(sc->root_node() == 0, "root", [&] { return msg("root"); });
    c.check(sc->camera_node() == r.camera && sc->env_light_node() == r.env && sc->medium_node() == r.medium, "special-nodes",
        [&] { return msg("camera/env/medium = " + std::to_string(sc->camera_node()) + "/" + std::to_string(sc->env_light_node()) + "/" + std::to_string(sc->medium_node())
            + " expected " + std::to_string(r.camera) + "/" + std::to_string(r.env) + "/" + std::to_string(r.medium)); });
    if (r.camera >= 0) c.check(locof(sc->camera()) == r.nodes[r.camera].camera, "camera", [&] { return msg("camera asset"); });
    for (int i = 0; i < int(r.nodes.size()); i++) {
        const auto& q = r.nodes[i];
        const SceneNode* visited = nullptr; int visits = 0;
        sc->visit_node(i, [&](const SceneNode& n) { visited = &n; visits++; });
        const auto& n = sc->node_at(i);
        c.check(visits == 1 && visited == &n && n.index == i && (n.type == SceneNodeType::Group) == q.group, "node-kind", [&] { return msg("node " + std::to_string(i)); });
        if (q.group) {
            c.check(n.group.children == q.children && n.group.instanced == q.instanced && bool(n.group.local_transform) == q.has_xf
                && (!q.has_xf || near_m(*n.group.local_transform, q.M)), "group-content", [&] { return msg("group node " + std::to_string(i) + " content"); });
        } else {
            c.check(locof(n.primitive.mesh) == q.mesh && locof(n.primitive.material) == q.material && locof(n.primitive.light) == q.light
                && locof(n.primitive.camera) == q.camera && locof(n.primitive.medium) == q.medium, "primitive-content", [&] { return msg("primitive node " + std::to_string(i) + " content"); });
        }
    }
    // Traversal: every path exactly once with the product transform
    std::vector<std::pair<int, Mat4>> want, got;
    r.walk(0, Mat4(1.0), [&](int n, const Mat4& M) { if (!r.nodes[n].group) want.push_back({ n, M }); });
    sc->traverse_primitive_nodes([&](const SceneNode& n, Mat4 M) { if (n.type == SceneNodeType::Primitive) got.push_back({ n.index, M }); });
    bool ok = want.size() == got.size();
    std::vector<char> used(got.size());
    for (auto& w : want) {
        bool f = false;
        for (size_t k = 0; k < got.size() && ok && !f; k++) if (!used[k] && got[k].first == w.first && near_m(got[k].second, w.second)) { used[k] = 1; f = true; }
        ok = ok && f;
    }
    c.check(ok, "traversal", [&] { return msg("traversal visited " + std::to_string(got.size()) + " primitives, expected " + std::to_string(want.size()) + " or a transform differs"); });
}

void check_lights(Ctx& c, Scene* sc, const Ref& r, const std::string& h) {
    const auto msg = [&](const std::string& s) { return s + " after: " + h; };
    std::vector<std::pair<int, Mat4>> want;
    r.walk(0, Mat4(1.0), [&](int n, const Mat4& M) { if (!r.nodes[n].group && !r.nodes[n].light.empty()) want.push_back({ n, M }); });
    const int n = sc->num_lights();
    c.check(n == int(want.size()), "num-lights", [&] { return msg("num_lights=" + std::to_string(n) + " expected " + std::to_string(want.size())); });
    std::vector<char> used(want.size());
    for (int i = 0; i < n; i++) {
        const auto l = sc->light_primitive_index_at(i);
        bool f = false;
        for (size_t k = 0; k < want.size() && !f; k++) if (!used[k] && want[k].first == l.index && near_m(want[k].second, l.global_transform.M)) { used[k] = 1; f = true; }
        c.check(f, "light-entry", [&] { return msg("light " + std::to_string(i) + " refers to node " + std::to_string(l.index) + " with a wrong node or transform"); });
        // Derived quantities of the transform
        const Mat4& M = l.global_transform.M;
        const double J = std::fabs(double(det3(M)));
        c.check(near(l.global_transform.J, J, 1e-9), "transform-J", [&] { return msg("transform determinant"); });
        for (int k = 0; k < 3; k++) {
            Vec3 nn = l.global_transform.normal_M * Vec3(k == 0, k == 1, k == 2);
            Vec3 want_n = xform_normal(M, Vec3(k == 0, k == 1, k == 2));
            c.check(near(unit(nn), want_n, 0, 1e-8), "transform-normal", [&] { return msg("normal transform"); });
        }
        const int li = sc->light_index_at(l.index);
        c.check(li >= 0 && li < n && sc->light_primitive_index_at(li).index == l.index, "light-index", [&] { return msg("light_index_at(" + std::to_string(l.index) + ")=" + std::to_string(li) + " is another node"); });
    }
    if (n == 0) return;
    // Light selection: frequency over u equals the reported probability
    const int G = 4096 ; std::vector<int> cnt(n);
    const double off = c.unit();
    double sum = 0;
    for (int i = 0; i < n; i++) sum += sc->pdf_light_selection(i);
    c.check(near(sum, 1, 1e-9), "selection-sum", [&] { return msg("selection probabilities sum to " + S(sum)); });
    for (int k = 0; k < G; k++) {
        const auto s = sc->sample_light_selection((k + off) / G);
        c.check(s.light_index >= 0 && s.light_index < n, "selection-range", [&] { return msg("selected light out of range"); });
        c.check(near(s.p_sel, sc->pdf_light_selection(s.light_index), 1e-12), "selection-pdf", [&] { return msg("selection probability mismatch"); });
        cnt[s.light_index]++;
    }
    for (int i = 0; i < n; i++)
        c.check(std::fabs(cnt[i] - G * sc->pdf_light_selection(i)) <= 4, "selection-frequency", [&] { return msg("light " + std::to_string(i) + " selected " + std::to_string(cnt[i]) + " of " + std::to_string(G) + " times, probability " + S(sc->pdf_light_selection(i))); });
    for (double u : { 0., 1. - 1e-16, 1. }) {
        const auto s = sc->sample_light_selection(u);
        c.check(s.light_index >= 0 && s.light_index < n, "selection-range", [&] { return msg("selected light out of range at u=" + S(u)); });
    }
}

template <class F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }

void run(Ctx& c) {
    lm::reset();
    // Assets
    MeshSpec m = gen_mesh(c, 6);
    const std::vector<std::string> lightkinds = { "area", "point", "directional", "env", "env2" };
    asset("acc", "accel::sahbvh", {});
    asset("mat", "material::diffuse", { {"Kd", Json::array({.5, .5, .5})} });
    asset("mat2", "material::mirror", {});
    asset("mesh", "mesh::raw", m.json());
    asset("area", "light::area", { {"Ke", Json::array({1., 2., 3.})}, {"mesh", "$.assets.mesh"} });
    asset("point", "light::point", { {"Le", Json::array({1., 2., 3.})}, {"position", Json::array({0., 0., 0.})} });
    asset("directional", "light::directional", { {"Le", Json::array({1., 2., 3.})}, {"direction", Json::array({0., -1., 0.})} });
    asset("env", "light::envconst", { {"Le", Json::array({1., 1., 1.})} });
    asset("env2", "light::envconst", { {"Le", Json::array({2., 1., 1.})} });
    asset("cam", "camera::pinhole", { {"position", Json::array({0., 0., 5.})}, {"center", Json::array({0., 0., 0.})}, {"up", Json::array({0., 1., 0.})}, {"vfov", 30.}, {"aspect", 1.5} });
    asset("cam2", "camera::pinhole", { {"position", Json::array({0., 1., 5.})}, {"center", Json::array({0., 0., 0.})}, {"up", Json::array({0., 1., 0.})}, {"vfov", 50.}, {"aspect", 1.} });
    asset("vol", "volume::constant", { {"bound", { {"min", Json::array({-1., -1., -1.})}, {"max", Json::array({1., 1., 1.})} }}, {"scalar", 1.}, {"color", Json::array({1., 1., 1.})} });
    asset("phase", "phase::isotropic", {});
    asset("medium", "medium::homogeneous", { {"density", 1.}, {"albedo", Json::array({.5, .5, .5})}, {"phase", "$.assets.phase"} });
    const bool with_model = c.chance(.3);
    int model_groups = 0; bool model_light[2] = { false, false };
    if (with_model) {
        std::ofstream o(c.scratch + "/m.obj"), t(c.scratch + "/m.mtl");
        model_groups = c.in(1, 2);
        o << "mtllib m.mtl\nv 0 0 0\nv 1 0 0\nv 0 1 0\nv 0 0 1\n";
        for (int g = 0; g < model_groups; g++) {
            model_light[g] = c.coin();
            t << "newmtl m" << g << "\nKd 0.5 0.5 0.5\nKs 0 0 0\nNs 1\nNi 1\nillum 2\nKe " << (model_light[g] ? "1 1 1" : "0 0 0") << "\n\n";
            o << "usemtl m" << g << "\nf 1 2 " << 3 + g << "\n";
        }
        o.close(); t.close();
        asset("model", "model::wavefrontobj", { {"path", c.scratch + "/m.obj"} });
    }
    const bool accel_at_start = c.chance(.7);
    auto* sc = get<Scene>(asset("scene", "scene::default", accel_at_start ? Json{ {"accel", "$.assets.acc"} } : Json::object()));
    bool has_accel = accel_at_start;
    Ref r; r.clear();
    struct Hist : std::string { Ctx* c; using std::string::string; Hist& operator+=(const std::string& s) { append(s); c->note(s); return *this; } } h; h.c = &c;
    const int nops = c.in(3, c.tier ? 60 : 40);
    int prims = 0, built = 0, lights_seen = 0;
    const auto some_group = [&]() { std::vector<int> g; for (int i = 0; i < int(r.nodes.size()); i++) if (r.nodes[i].group) g.push_back(i); return c.chance(.3) ? 0 : c.pick(g); };
    const auto attach = [&](int par, int ch) {
        // keep the graph acyclic and small
        if (r.reaches(ch, par)) return;
        Ref t = r; t.nodes[par].children.push_back(ch); if (t.paths(0) > 300) return;
        h += "add(" + std::to_string(par) + "," + std::to_string(ch) + ") ";
        sc->add_child(par, ch); r.nodes[par].children.push_back(ch);
    };
    // Random primitive description; returns expected validity
    struct PD { Json j = Json::object(); RNode n; bool ok = true; };
    const auto gen_prim = [&]() {
        PD d;
        const std::string A = "$.assets.";
        const auto set = [&](const char* key, const std::string& name, std::string& f) { d.j[key] = A + name; f = A + name; };
        switch (c.weighted({ 6, 4, 3, 2, 3, 4 })) {
            case 0: set("mesh", "mesh", d.n.mesh); set("material", c.coin() ? "mat" : "mat2", d.n.material); break;
            case 1: set("mesh", "mesh", d.n.mesh); set("material", "mat", d.n.material); set("light", "area", d.n.light); break;
            case 2: set("light", c.pick(lightkinds), d.n.light); break;
            case 3: set("medium", "medium", d.n.medium); break;
            case 4: set("camera", c.coin() ? "cam" : "cam2", d.n.camera); break;
            default: { // arbitrary mix, references may be missing or of the wrong kind
                const auto maybe = [&](const char* key, const std::string& good, std::string& f) {
                    switch (c.weighted({ 5, 4, 1, 1 })) {
                        case 1: set(key, good, f); break;
                        case 2: d.j[key] = A + "phase"; break;      // other kind of component
                        case 3: d.j[key] = A + "nothing"; break;    // no such asset
                        default: break;
                    }
                };
                maybe("mesh", "mesh", d.n.mesh); maybe("material", "mat", d.n.material); maybe("light", c.pick(lightkinds), d.n.light);
                maybe("camera", "cam", d.n.camera); maybe("medium", "medium", d.n.medium);
            }
        }
        const bool mesh = !d.n.mesh.empty(), mat = !d.n.material.empty(), li = !d.n.light.empty(), ca = !d.n.camera.empty(), me = !d.n.medium.empty();
        if (!mesh && !mat && !li && !ca && !me) d.ok = false;
        if (li && ca) d.ok = false;
        if (mesh != mat) d.ok = false;
        if (d.n.light.find("env") != std::string::npos && r.env >= 0) d.ok = false;
        return d;
    };
    const auto register_prim = [&](const PD& d) {
        const int id = int(r.nodes.size());
        r.nodes.push_back(d.n);
        if (!d.n.camera.empty()) r.camera = id;
        if (d.n.light.find("env") != std::string::npos) r.env = id;
        if (!d.n.medium.empty()) r.medium = id;
        prims++;
        return id;
    };
    for (int k = 0; k < nops; k++) {
        const int op = c.weighted({ 8, 5, 2, 6, 4, 2, with_model ? 2 : 0, 1, 3, 1, 1 });
        switch (op) {
            case 0: { // primitive
                PD d = gen_prim();
                h += std::string("prim(") + d.j.dump() + (d.ok ? ") " : ")! ");
                int id = -2; const bool t = throws([&] { id = sc->create_primitive_node(d.j); });
                c.check(t == !d.ok, "primitive-validity", [&] { return std::string(t ? "valid primitive rejected" : "invalid primitive accepted") + ": " + d.j.dump() + " after: " + h; });
                if (d.ok) {
                    c.check(id == int(r.nodes.size()), "node-index", [&] { return "index " + std::to_string(id) + " after: " + h; });
                    const int me = register_prim(d);
                    if (c.chance(.7)) attach(some_group(), me);
                } else c.label("rejected-primitive");
                break;
            }
            case 1: {
                RNode n; n.group = true; n.has_xf = true; n.M = gen_transform(c, c.in(0, 3));
                const int id = sc->create_group_node(n.M); h += "group ";
                c.check(id == int(r.nodes.size()), "node-index", [&] { return "group index after: " + h; });
                r.nodes.push_back(n); if (c.chance(.7)) attach(some_group(), id);
                break;
            }
            case 2: {
                RNode n; n.group = true; n.instanced = true;
                const int id = sc->create_instance_group_node(); h += "instgroup ";
                c.check(id == int(r.nodes.size()), "node-index", [&] { return "group index after: " + h; });
                r.nodes.push_back(n); if (c.chance(.7)) attach(some_group(), id);
                break;
            }
            case 3: attach(some_group(), c.in(0, int(r.nodes.size()) - 1)); break;
            case 4: { // add_primitive convenience
                PD d = gen_prim(); const bool xf = c.coin();
                RNode g; g.group = true; g.has_xf = true; g.M = xf ? gen_transform(c, c.in(1, 3)) : Mat4(1.0);
                h += std::string("addprim(") + d.j.dump() + (d.ok ? ") " : ")! ");
                const bool t = throws([&] { if (xf) sc->add_transformed_primitive(g.M, d.j); else sc->add_primitive(d.j); });
                c.check(t == !d.ok, "primitive-validity", [&] { return std::string(t ? "valid primitive rejected" : "invalid primitive accepted") + " after: " + h; });
                if (!d.ok) { // a group node without content may be left behind unattached
                    if (sc->num_nodes() == int(r.nodes.size()) + 1) r.nodes.push_back(g);
                    break;
                }
                const int gi = int(r.nodes.size()); r.nodes.push_back(g);
                const int me = register_prim(d);
                r.nodes[gi].children.push_back(me); r.nodes[0].children.push_back(gi);
                break;
            }
            case 5: { // invalid parents: nothing may change
                std::vector<int> bad = { -1, -100, int(r.nodes.size()), int(r.nodes.size()) + 7 };
                for (int i = 0; i < int(r.nodes.size()); i++) if (!r.nodes[i].group) bad.push_back(i);
                const int p = c.pick(bad); h += "badparent(" + std::to_string(p) + ") ";
                throws([&] { if (with_model && c.coin() && p < 0) sc->add_child_from_model(p, "$.assets.model"); else sc->add_child(p, c.in(0, int(r.nodes.size()) - 1)); });
                break;
            }
            case 6: {
                const int par = some_group(); const bool conv = c.coin(); Mat4 M(1.0);
                int p = par;
                if (conv) {
                    M = gen_transform(c, 3); h += "addmodel ";
                    sc->add_transformed_primitive(M, { {"model", "$.assets.model"} });
                    RNode g; g.group = true; g.has_xf = true; g.M = M; p = int(r.nodes.size()); r.nodes.push_back(g); r.nodes[0].children.push_back(p);
                } else { h += "childmodel(" + std::to_string(par) + ") "; sc->add_child_from_model(par, "$.assets.model"); }
                for (int g = 0; g < model_groups; g++) {
                    RNode n;
                    // Names of the model's inner assets are looked up in the node itself
                    const int id = int(r.nodes.size());
                    if (id < sc->num_nodes()) {
                        const auto& q = sc->node_at(id).primitive;
                        n.mesh = locof(q.mesh); n.material = locof(q.material); n.light = locof(q.light);
                        c.check(q.mesh && q.mesh->num_triangles() == 1 && near(q.mesh->triangle_at(0).p3.p, g ? Vec3(0, 0, 1) : Vec3(0, 1, 0), 0, 1e-9), "model-mesh", [&] { return "mesh of model group " + std::to_string(g) + " after: " + h; });
                        c.check(n.material == "$.assets.model.m" + std::to_string(g), "model-material", [&] { return "material of model group: " + n.material; });
                        c.check((q.light != nullptr) == model_light[g], "model-light", [&] { return "light of model group " + std::to_string(g) + " after: " + h; });
                    }
                    r.nodes.push_back(n); r.nodes[p].children.push_back(id); prims++;
                }
                c.label("model");
                break;
            }
            case 7: sc->reset(); r.clear(); h += "reset "; break;
            case 8: {
                h += "build ";
                if (!has_accel) {
                    const bool t = throws([&] { sc->build(); });
                    c.check(t, "build-without-accel", [&] { return "build without acceleration structure succeeded: " + h; });
                    c.label("no-accel");
                } else { sc->build(); built++; check_lights(c, sc, r, h); lights_seen += sc->num_lights(); }
                break;
            }
            case 9: sc->set_accel("$.assets.acc"); has_accel = true; h += "setaccel "; break;
            default: { // requirement checks
                c.check(throws([&] { sc->require_primitive(); }) == (r.nodes.size() <= 1), "require", [&] { return "require_primitive after: " + h; });
                c.check(throws([&] { sc->require_camera(); }) == (r.camera < 0), "require", [&] { return "require_camera after: " + h; });
                c.check(throws([&] { sc->require_accel(); }) == !has_accel, "require", [&] { return "require_accel after: " + h; });
                c.check(throws([&] { sc->require_light(); }) == (sc->num_lights() == 0), "require", [&] { return "require_light after: " + h; });
                c.check(throws([&] { sc->require_renderable(); }) == (r.nodes.size() <= 1 || r.camera < 0 || !has_accel || sc->num_lights() == 0), "require", [&] { return "require_renderable after: " + h; });
            }
        }
        if (r.paths(0) > 1500) break;
        check_state(c, sc, r, h);
    }
    // Kind queries
    for (int i = 0; i < int(r.nodes.size()); i++) {
        if (r.nodes[i].group) continue;
        SceneInteraction sp = SceneInteraction::make_surface_interaction(i, PointGeometry::make_degenerated(Vec3(0)));
        c.check(sc->is_light(sp) == !r.nodes[i].light.empty(), "is-light", [&] { return "is_light of node " + std::to_string(i) + " after: " + h; });
        if (r.camera >= 0) c.check(sc->is_camera(sp) == (r.camera == i), "is-camera", [&] { return "is_camera of node " + std::to_string(i) + " after: " + h; });
    }

    c.nontrivial = built > 0 && prims >= 3 && lights_seen >= 2;
}

}

int main(int argc, char** argv) {
    pbt::Prop p;
    p.id = "P03";
    p.rule = "case = history of 3-40 (thorough 60) scene edits (primitives with arbitrary asset combinations incl. missing/wrong-kind references, groups with affine transforms, instance groups, attachments also repeated, model insertion, bad parents, reset, build, accelerator setting); after each step nodes, special nodes and traversal are compared with the model, after each build the light table. Non-trivial: at least one build with lights, >=3 primitives and >=2 light entries seen.";
    p.assumptions = { "attachments form an acyclic graph with existing children" };
    p.run = run; p.worker_init = init_lm;
    p.quick_cases = 100000; p.thorough_cases = 6000000; p.quick_s = 30; p.thorough_s = 600;
    return pbt::main(argc, argv, p);
}
