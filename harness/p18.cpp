// P18: references always denote the asset's current instance.
#include "asmgen.h"
using namespace asmgen;

namespace {
const std::set<std::string> geometric = { "mesh", "lmesh", "light", "env", "accel", "scene", "model" };

// A new specification for the name, of the same interface. Auxiliary assets it needs are appended to `aux`.
bool regen(Ctx& c, Assembly& a, const std::string& name, ASpec& out, std::vector<std::string>& aux, Json& ops, bool& fresh) {
    const ASpec old = *a.find(name);
    if (c.chance(.15)) { out = old; auto it = a.ops.find(name); if (it != a.ops.end()) ops = it->second; return true; } // same content, new instance
    static int uid; if (!fresh) uid = 1000; fresh = true; uid += 200;
    Gen g{ c, a }; g.uid = uid; g.dirs = uid;
    const size_t n0 = a.as.size(); std::string n;
    const auto& k = old.kind;
    if (k == "tex") n = g.texture(); else if (k == "mesh") n = g.mesh(); else if (k == "lmesh") n = g.lmesh(); else if (k == "model") n = g.model();
    else if (k == "mat") n = g.material(); else if (k == "cam") n = g.camera(); else if (k == "phase") n = g.phase(); else if (k == "med") n = g.medium(); else if (k == "film") n = g.film(); else if (k == "accel") n = g.accel();
    else if (k == "light") { if (old.key == "light::area") n = g.add("light", "light::area", { {"Ke", J(gen_color(c, .1, 5))}, {"mesh", old.prop["mesh"]} }); else n = c.coin() ? g.add("light", "light::point", { {"Le", J(gen_color(c, .1, 5))}, {"position", J(gen_vec(c, 5))} }) : g.add("light", "light::directional", { {"Le", J(gen_color(c, .1, 5))}, {"direction", J(gen_dir(c))} }); }
    else if (k == "env") { if (c.coin()) n = g.add("env", "light::envconst", { {"Le", J(gen_color(c, .1, 5))} }); else { int w, h, ch; const std::string path = c.scratch + "/env" + std::to_string(g.uid) + ".png"; put_image(path, c, w, h, ch); n = g.add("env", "light::env", { {"path", path}, {"scale", c.real(.1, 3)} }); } }
    else if (k == "vol" || k == "volm" || k == "volc") { for (int t = 0; t < 40 && (n.empty() || a.find(n)->kind != k); t++) n = g.volume(k == "volm"); if (a.find(n)->kind != k) { a.as.resize(n0); return false; } }
    else if (k == "scene") { bool used = false; for (auto& s : a.as) if (s.kind == "rend") used = true; n = g.scene(used); }
    else if (k == "rend") { auto v = a.of("scene"); if (v.empty() || old.prop.find("scene") == old.prop.end()) { const auto f = g.any("film", [&] { return g.film(); }); n = g.add("rend", "renderer::blank", { {"color", J(gen_color(c))}, {"output", "@" + f} }); } else n = g.renderer(old.prop["scene"].get<std::string>().substr(1)); }
    else return false;
    out = *a.find(n); auto it = a.ops.find(n); if (it != a.ops.end()) { ops = it->second; a.ops.erase(it); }
    // drop the generated entry itself; what else was generated are auxiliary assets
    std::vector<ASpec> as; for (size_t i = 0; i < a.as.size(); i++) if (a.as[i].name != n) { as.push_back(a.as[i]); if (i >= n0) aux.push_back(a.as[i].name); } a.as = as;
    out.name = name;
    std::set<std::string> r; refs(out.prop, r); refs(ops, r);
    if (reaches(a, r, name) || r.count(name)) { std::vector<ASpec> keep(a.as.begin(), a.as.begin() + n0); for (size_t i = n0; i < a.as.size(); i++) a.ops.erase(a.as[i].name); a.as = keep; aux.clear(); return false; }
    return true;
}
void refill(AssetGroup* g, const Assembly& a) { for (auto& s : a.as) if (s.kind == "film") populate(g, a, s, lm::comp::get<Component>(g->loc() + "." + s.name)); }
void rebuild(AssetGroup* g, const Assembly& a) { for (auto& s : a.as) if (s.kind == "scene") { bool b = false; auto it = a.ops.find(s.name); if (it != a.ops.end()) for (auto& o : it->second) if (o["op"].get<std::string>() == "build") b = true; if (b) lm::comp::get<Scene>(g->loc() + "." + s.name)->build(); } }
const Json* ops_of(const Assembly& a, const std::string& n) { auto it = a.ops.find(n); return it == a.ops.end() ? nullptr : &it->second; }

// A material inside an entry of a marginalized mixture turns from non-specular to specular (or back)
void nested(Ctx& c) {
    const bool spec = c.coin(); const std::string keys[2] = { "material::diffuse", "material::mirror" };
    auto* g = dynamic_cast<AssetGroup*>(lm::assets()->load_asset("g", "asset_group::default", Json::object()));
    auto leaf = [&](bool s) { g->load_asset("leaf", keys[s], s ? Json::object() : Json{ {"Kd", { .5, .5, .5 }} }); };
    auto upper = [&](const std::string& m) { return g->load_asset(m, "material::constant_weight_mixture_marginalized", Json::array({ { {"material", "$.assets.g.mid"}, {"weight", 1.} } })); };
    leaf(spec); if (c.coin()) g->load_asset("mid", "material::constant_weight_mixture_rr", Json::array({ { {"material", "$.assets.g.leaf"}, {"weight", 1.} } })); else g->load_asset("mid", "material::proxy", { {"ref", "$.assets.g.leaf"} });
    upper("m"); leaf(!spec); upper("fresh");
    const auto geom = PointGeometry::make_on_surface(Vec3(0), Vec3(0, 0, 1));
    auto comp_of = [&](const std::string& n) { auto* m = dynamic_cast<Material*>(g->underlying(n)); return m->sample_component({ Vec2(.5, .5) }, geom, Vec3(0, 0, 1)).comp; };
    const int x = comp_of("m"), y = comp_of("fresh"); c.label("nested-case");
    c.check(x == y, "stale-nested-group", [&] { return "after a nested material changed specularity the marginalized mixture selects component " + std::to_string(x) + " instead of " + std::to_string(y); });
}
void run(Ctx& c) {
    lm::reset(); lm::parallel::init("openmp", { {"num_threads", 1} });
    if (c.chance(.01)) { nested(c); c.nontrivial = true; return; }
    auto a = gen(c, c.chance(.5)); if (c.chance(.4)) nest(c, a);
    auto* g = dynamic_cast<AssetGroup*>(lm::assets()->load_asset("g", "asset_group::default", Json::object())); load_all(g, a);
    std::string desc; for (auto& s : a.as) desc += s.name + "=" + s.key + " "; c.note("initial: ", desc);
    const int steps = c.in(1, c.chance(.2) ? 12 : 4); int done = 0; std::string last; std::set<std::string> deps_seen; bool nt = false, fresh = false;
    for (int i = 0; i < steps; i++) {
        // Prefer assets others depend on
        std::vector<std::string> names; for (auto& s : a.as) { names.push_back(s.name); bool used = false; for (auto& t : a.as) { std::set<std::string> r; refs(t.prop, r); if (const auto* o = ops_of(a, t.name)) refs(*o, r); if (r.count(s.name)) used = true; } if (used) for (int k = 0; k < 3; k++) names.push_back(s.name); }
        const std::string n = c.pick(names); ASpec spec; std::vector<std::string> aux; Json ops;
        if (!regen(c, a, n, spec, aux, ops, fresh)) continue;
        const std::string kind = spec.kind;
        c.note("\nreplace ", n, " by ", spec.key, " ", spec.prop.dump().substr(0, 200)); last = n; done++; c.label("replace-" + spec.key);
        for (auto& t : a.as) { std::set<std::string> r; refs(t.prop, r); if (const auto* o = ops_of(a, t.name)) refs(*o, r); if (r.count(n)) { nt = true; c.label(kind + "-of-" + t.kind); } }
        for (auto& x : aux) { auto* p = load_one(g, a, *a.find(x)); populate(g, a, *a.find(x), p); }
        for (auto& s : a.as) if (s.name == n) s = spec; if (!ops.is_null()) a.ops[n] = ops;
        auto* p = load_one(g, a, spec);
        c.check(p == lm::comp::get<Component>(g->loc() + "." + n), "registered", [&] { return "the replacement of " + n + " is not what its locator denotes"; });
        if (kind == "model" && !c.known->count("never")) { // scenes made from the model take its parts by name; they are made again
            for (auto& s : a.as) if (s.kind == "scene") { std::set<std::string> r; if (const auto* o = ops_of(a, s.name)) refs(*o, r); if (r.count(n)) { auto* q = load_one(g, a, s); populate(g, a, s, q); } }
        }
        if (kind == "mat") { // known finding stale-nested-group (see nested()): a marginalized mixture is made again when a material inside one of its entries changed
            for (auto& m : topo(a)) { const auto* s = a.find(m); if (!s || s->key != "material::constant_weight_mixture_marginalized" || m == n) continue; std::set<std::string> r; refs(s->prop, r); std::set<std::string> inner; for (auto& e : r) if (e != n && a.find(e)) { std::set<std::string> q; refs(a.find(e)->prop, q); inner.insert(q.begin(), q.end()); } if (inner.count(n) || reaches(a, inner, n)) { load_one(g, a, *s); c.label("nested-remade"); } }
        }
        if (kind == "scene" || kind == "film") populate(g, a, spec, p);
        if (geometric.count(kind)) rebuild(g, a);
        // references into replaced scenes' accelerators: every scene is built after its accelerator is new
    }
    if (!done) throw pbt::Discard{};
    refill(g, a);
    // What an accelerator or a light at infinity answers is defined once a scene using it was built; one in several scenes follows the scene built last
    std::map<std::string, int> built; for (auto& s : a.as) if (s.kind == "scene") if (const auto* o = ops_of(a, s.name)) for (auto& x : *o) if (x["op"].get<std::string>() == "build") { std::set<std::string> r; refs(s.prop, r); refs(*o, r); for (auto& n : r) built[n]++; break; }
    auto depends = [](const ASpec& s) { return s.kind == "accel" || s.kind == "env" || s.key == "light::directional"; };
    auto drop = [&](FP f) { FP r = f; r.l.clear(); for (auto& l : f.l) { bool bad = false; for (auto& s : a.as) if (depends(s) && !built.count(s.name) && l.compare(0, s.name.size() + 1, s.name + ".") == 0) bad = true; if (!bad) r.l.push_back(l); } return r; };
    bool shared = false; for (auto& s : a.as) if (depends(s) && built.count(s.name) && built[s.name] > 1) shared = true;
    if (shared) rebuild(g, a);
    const auto f = drop(fingerprint_all(g, a));
    // The same assembly, made from scratch
    auto* h = dynamic_cast<AssetGroup*>(lm::assets()->load_asset("h", "asset_group::default", Json::object()));
    for (auto& n : topo(a)) { const auto& s = *a.find(n); auto* p = load_one(h, a, s); populate(h, a, s, p); }
    if (shared) rebuild(h, a);
    refill(h, a);
    const auto f2 = drop(fingerprint_all(h, a));
    const auto d = diff(f, f2); std::string key;
    if (!d.empty()) for (auto& s : a.as) if (d.compare(0, s.name.size(), s.name) == 0 && (d[s.name.size()] == '.' || d[s.name.size()] == ':' || d[s.name.size()] == ' ')) key = s.key;
    c.check(d.empty(), "stale:" + key, [&] { return "after replacement: " + d + " (from scratch)"; });
    c.nontrivial = nt;
}
}
int main(int argc, char** argv) {
    pbt::Prop p; p.id = "P18";
    p.rule = "case = generated assembly of assets of all built-in kinds (also in nested groups) and a history of 1-12 replacements of assets by others of the same interface (or by a new instance with the same content), with auxiliary assets added on the way; afterwards every query of every component and fixed-seed renders are compared bit by bit with the same assembly made from scratch, all under AddressSanitizer. Non-trivial: at least one replaced asset was referred to by another one.";
    p.assumptions = { "a replacement implements the same interface; scenes are rebuilt after their geometry, lights or accelerator changed, and made again when a model they were made from was replaced by a different one", "an accelerator belongs to one scene; volume::multi combines simple volumes" };
    p.run = run; p.worker_init = init_lm; p.quick_cases = 400000; p.thorough_cases = 30000000; p.quick_s = 40; p.thorough_s = 500; p.case_timeout = 60;
    return pbt::main(argc, argv, p);
}
