// P20: component registry and locators.
#include "asmgen.h"
#include "plug_iface.h"
using namespace asmgen;

namespace {
std::map<std::string, int> live;                    // live instances per registration
struct Any { std::string id, tag; };
template <class I> struct Impl final : I {
    std::string id, tag; int* constructed = nullptr;
    explicit Impl(const std::string& i) : id(i) { live[id]++; }
    ~Impl() { if (!--live[id]) live.erase(id); }
    void construct(const Json& p) override { tag = p.is_object() && p.contains("tag") ? p["tag"].get<std::string>() : ""; }
    std::string who() const override { return id + "/" + tag; }
};
enum class Kind { A, B, TI, TD };
template <class I> void reg_one(const std::string& key, const std::string& alias, const std::string& id) {
    lm::comp::detail::reg(key, alias, [id]() -> Component* { return new Impl<I>(id); }, [id](Component* p) { auto* q = dynamic_cast<Impl<I>*>(p); if (!q || q->id != id) { fprintf(stderr, "released by another registration\n"); abort(); } delete q; });
}
void reg_kind(Kind k, const std::string& key, const std::string& alias, const std::string& id) {
    switch (k) { case Kind::A: return reg_one<IfaceA>(key, alias, id); case Kind::B: return reg_one<IfaceB>(key, alias, id);
        case Kind::TI: return reg_one<IfaceT<int>>(key, alias, id); default: return reg_one<IfaceT<double>>(key, alias, id); }
}
struct Reg { Kind kind; std::string id; };
struct Model {
    std::map<std::string, Reg> funcs; std::map<std::string, std::string> alias; // own registrations
    const Reg* find(const std::string& k) const { auto a = alias.find(k); auto it = funcs.find(a == alias.end() ? k : a->second); return it == funcs.end() ? nullptr : &it->second; }
};
const std::string& keygen(Kind k, const std::string& base, std::string& out) { out = k == Kind::TI ? lm::comp::detail::KeyGen<IfaceT<int>>::gen(base) : k == Kind::TD ? lm::comp::detail::KeyGen<IfaceT<double>>::gen(base) : base; return out; }

void registry(Ctx& c) {
    Model m; std::vector<std::string> bases = { "va::x", "va::y", "vb", "v", "va::x2", "VA::x" }, aliases = { "", "", "al1", "al2", "va::al" };
    struct Inst { std::string id, tag; std::function<std::string()> who; Component::Ptr<Component> p; };
    std::vector<Inst> insts; int uid = 0; live.clear(); std::set<std::string> keys_used;
    const std::string dir = getenv("VERIF_LIB_DIR") ? getenv("VERIF_LIB_DIR") : "."; std::map<int, int> plug; std::string shared; // shared: plugin that registered vplug::shared last
    // plugins whose files carry the same name in different directories
    std::string alt; if (c.chance(.1)) { static int serial = 0; alt = c.scratch + "/alt" + std::to_string(serial++); for (int n = 1; n <= 3; n++) { std::filesystem::create_directories(alt + "/" + std::to_string(n)); std::filesystem::copy_file(dir + "/vplug" + std::to_string(n) + ".so", alt + "/" + std::to_string(n) + "/vplug.so", std::filesystem::copy_options::overwrite_existing); } c.label("plugin-same-name"); }
    const auto pathof = [&](int n) { return alt.empty() ? dir + "/vplug" + std::to_string(n) : alt + "/" + std::to_string(n) + "/vplug"; };
    bool shared_known = true; static std::set<int> sticky; // plugins that stay mapped after unloading
    const int steps = c.in(3, 25); int creates = 0, mism = 0;
    auto check_create = [&](const std::string& key, Kind want) {
        const std::string tag = "t" + std::to_string(uid++); const Json prop = { {"tag", tag} }; const std::string loc = c.coin() ? "" : "$.x" + tag; std::string full; keygen(want, key, full);
        const auto* r = m.find(full); const bool ok = r && r->kind == want; const auto before = live;
        Component::Ptr<Component> q; std::string who; creates++;
        auto take = [&](auto p) { if (p) { who = p->who(); q = Component::Ptr<Component>(p.release()); } };
        switch (want) { case Kind::A: take(lm::comp::create<IfaceA>(key, loc, prop)); break; case Kind::B: take(lm::comp::create<IfaceB>(key, loc, prop)); break; case Kind::TI: take(lm::comp::create<IfaceT<int>>(key, loc, prop)); break; default: take(lm::comp::create<IfaceT<double>>(key, loc, prop)); }
        if (r && r->kind != want) mism++;
        c.check(bool(q) == ok, ok ? "create-failed" : "create-wrong", [&] { return "create(" + key + ") gives " + (q ? who : std::string("nothing")) + (r ? ", registered is " + r->id : ", nothing is registered"); });
        if (q) {
            c.check(who == r->id + "/" + tag, "wrong-impl", [&] { return "create(" + key + ") gives " + who + " instead of " + r->id + "/" + tag; });
            auto a = m.alias.find(full); const std::string rk = a == m.alias.end() ? full : a->second;
            c.check(q->key() == rk && q->loc() == loc, "key-loc", [&] { return "created instance has key " + q->key() + " and locator " + q->loc(); });
            Inst i; i.id = r->id; i.tag = tag; i.p = std::move(q); insts.push_back(std::move(i));
        }
        else c.check(live == before, "leak", [&] { return "create(" + key + ") failed but left an instance behind"; });
    };
    for (int s = 0; s < steps; s++) {
        const int op = c.in(0, 11);
        if (op <= 2) { // register
            const Kind k = Kind(c.in(0, 3)); std::string base = c.pick(bases), key; keygen(k, base, key); const std::string al = c.pick(aliases), id = "r" + std::to_string(uid++);
            reg_kind(k, key, al, id); m.funcs[key] = { k, id }; if (!al.empty()) m.alias[al] = key; keys_used.insert(key); c.note(" reg ", key, "/", al, "=", id);
        }
        else if (op == 3 && !m.funcs.empty()) { // unregister
            std::vector<std::string> ks; for (auto& f : m.funcs) ks.push_back(f.first); const auto k = c.pick(ks); std::string al; for (auto& a : m.alias) if (a.second == k && c.coin()) al = a.first;
            lm::comp::detail::unreg(k, al); m.funcs.erase(k); if (!al.empty()) m.alias.erase(al); c.note(" unreg ", k, "/", al); c.label("unreg");
        }
        else if (op <= 6) { const std::string key = c.coin() ? c.pick(bases) : c.pick(std::vector<std::string>{ "al1", "al2", "va::al", "", "va::x ", "nosuch", "v a" }); check_create(key, Kind(c.in(0, 3))); }
        else if (op == 7 && !insts.empty()) { // release
            const size_t i = size_t(c.in(0, int(insts.size()) - 1)); const auto id = insts[i].id; const int n = live.count(id) ? live[id] : 0; insts.erase(insts.begin() + long(i)); const int n1 = live.count(id) ? live[id] : 0; c.check(n1 == n - 1, "release", [&] { return "releasing an instance of " + id + " destroyed " + std::to_string(n - n1) + " instances"; });
        }
        else if (op <= 9) { // plugins
            const int n = c.in(1, 3); const std::string path = pathof(n);
            if (!plug.count(n)) { lm::comp::load_plugin(path); plug[n] = 1; if (!sticky.count(n)) { shared = "plug" + std::to_string(n); shared_known = true; } else shared_known = false; c.note(" load ", n); c.label("plugin-load"); }
            else if (c.chance(.1)) { lm::comp::unload_all_plugins(); plug.clear(); shared_known = false; c.note(" unload all"); c.label("plugin-unload-all"); }
            else if (c.coin()) { lm::comp::load_plugin(path); } // again: no effect
            else { lm::comp::unload_plugin(path); plug.erase(n); shared_known = false; c.note(" unload ", n); c.label("plugin-unload"); }
        }
        else if (op == 10) { // failing loads
            const int n = c.in(1, 3); bool threw = false; std::string what;
            try { if (!plug.count(n) && c.coin()) { what = "unloading a plugin that is not loaded"; lm::comp::unload_plugin(pathof(n)); } else { const std::string p = c.scratch + "/bad"; what = "loading a missing or broken plugin"; if (c.coin()) std::ofstream(p + ".so") << "garbage"; else std::filesystem::remove(p + ".so"); lm::comp::load_plugin(p); } } catch (const lm::Exception&) { threw = true; }
            c.check(threw, "plugin-no-error", [&] { return what + " raised no error"; }); c.label("plugin-fail");
        }
        // Plugin components
        for (int n = 1; n <= 3; n++) {
            const std::string k = "vplug" + std::to_string(n), id = "plug" + std::to_string(n);
            auto a = lm::comp::create<IfaceA>(k + "::a", "", { {"tag", "q"} }); auto b = lm::comp::create<IfaceB>(k + "::b", "", {}); auto x = lm::comp::create<IfaceB>(k + "::a", "", {});
            if (plug.count(n)) c.check(a && b, "plugin-missing", [&] { return "components of the loaded plugin " + k + " cannot be created"; });
            if (a) c.check(a->who() == id + ".a/q", "plugin-wrong", [&] { return k + "::a gives " + a->who(); });
            if (b) c.check(b->who() == id + ".b/", "plugin-wrong", [&] { return k + "::b gives " + b->who(); });
            c.check(!x, "plugin-iface", [&] { return k + "::a was created as another interface"; });
        }
        { auto s2 = lm::comp::create<IfaceA>("vplug::shared", "", {}); if (shared_known && !shared.empty() && !plug.empty()) c.check(s2 && s2->who() == shared + ".shared/", "override", [&] { return "vplug::shared gives " + (s2 ? s2->who() : std::string("nothing")) + " instead of the one registered last by " + shared; }); }
        // The enumeration agrees
        std::set<std::string> en; lm::comp::foreach_registered([&](const std::string& n) { c.check(en.insert(n).second, "enum-twice", [&] { return n + " enumerated twice"; }); });
        for (auto& k : keys_used) c.check(en.count(k) == m.funcs.count(k), "enum", [&] { return "enumeration of registered components is wrong about " + k; });
        c.check(en.count("material::diffuse") && en.count("scene::default"), "enum", [&] { return std::string("built-in components are not enumerated"); });
        for (auto& i : insts) c.check(i.p->loc().size() + 1 > 0 && (dynamic_cast<IfaceA*>(i.p.get()) ? dynamic_cast<IfaceA*>(i.p.get())->who() : i.id + "/" + i.tag) == i.id + "/" + i.tag, "instance-changed", [&] { return "instance of " + i.id + " changed"; });
    }
    insts.clear(); for (auto& l : live) c.check(l.second == 0, "leak", [&] { return l.first + ": " + std::to_string(l.second) + " instances left"; });
    for (auto& f : m.funcs) lm::comp::detail::unreg(f.first, ""); for (auto& a : m.alias) lm::comp::detail::unreg("", a.first);
    for (auto& p : plug) { lm::comp::unload_plugin(pathof(p.first)); } if (!alt.empty()) std::filesystem::remove_all(alt);
    for (int n = 1; n <= 3; n++) { bool there = bool(lm::comp::create<IfaceA>("vplug" + std::to_string(n) + "::a", "", {})); if (there) sticky.insert(n); }
    c.label(sticky.empty() ? "plugins-really-unloaded" : "plugins-stay"); c.nontrivial = creates > 0;
}

// ------------------------------------------------------------------------------------------------
void walk(Component* p, std::map<std::string, Component*>& out, int depth = 0) {
    p->foreach_underlying([&](Component*& q, bool weak) { if (!q || weak) return; if (!q->loc().empty()) out[q->loc()] = q; if (depth < 8) walk(q, out, depth + 1); });
}
template <class T> void typed(Ctx& c, const std::string& loc, Component* p, const char* n) { auto* q = lm::comp::get<T>(loc); auto* e = dynamic_cast<T*>(p); c.check(q == e, "typed-get", [&] { return "get<" + std::string(n) + ">(" + loc + ") gives " + (q ? "an instance" : "nothing"); }); }
void locators(Ctx& c) {
    lm::reset(); lm::parallel::init("openmp", { {"num_threads", 1} });
    auto a = gen(c, c.chance(.4)); if (c.chance(.6)) nest(c, a);
    auto* g = dynamic_cast<AssetGroup*>(lm::assets()->load_asset(c.pick(std::vector<std::string>{ "g", "g-1", "a:b", "G_" }), "asset_group::default", Json::object())); load_all(g, a);
    if (c.coin()) for (auto& s : a.as) if (c.chance(.2)) { std::string n = s.name; auto* h = group_of(g, n); auto* p = h->load_asset("$bad", s.key, {}); c.check(!p, "bad-name", [&] { return std::string("an asset with an invalid name was created"); }); }
    std::map<std::string, Component*> all; auto* root = lm::comp::get<Component>("$"); c.check(root && root->loc() == "$", "root", [&] { return std::string("'$' is not the root"); }); all["$"] = root; walk(root, all);
    c.check(all.count("$.assets") && all["$.assets"] == lm::assets(), "root", [&] { return std::string("$.assets is not the asset group"); });
    for (auto& s : a.as) c.check(all.count(g->loc() + "." + s.name), "not-visited", [&] { return s.name + " is not among the underlying components"; });
    std::set<Component*> seen;
    for (auto& [loc, p] : all) {
        c.check(seen.insert(p).second, "loc-shared", [&] { return "two locators for the same component: " + loc; });
        auto* q = lm::comp::get<Component>(loc); c.check(q == p, "get", [&] { return loc + " resolves to " + (q ? q->key() + " at " + q->loc() : std::string("nothing")) + " instead of " + p->key(); });
        if (loc != "$") { auto* par = lm::comp::get<Component>(p->parent_loc()); c.check(par && par->underlying(p->name()) == p, "parent", [&] { return loc + ": not reachable from " + p->parent_loc() + " by " + p->name(); }); c.check(p->parent_loc() + "." + p->name() == loc && par->make_loc(p->name()) == loc, "split", [&] { return loc + ": parent and name do not make up the locator"; }); }
        typed<Mesh>(c, loc, p, "Mesh"); typed<Material>(c, loc, p, "Material"); typed<Texture>(c, loc, p, "Texture"); typed<Light>(c, loc, p, "Light"); typed<Camera>(c, loc, p, "Camera"); typed<Scene>(c, loc, p, "Scene"); typed<Film>(c, loc, p, "Film"); typed<AssetGroup>(c, loc, p, "AssetGroup"); typed<Renderer>(c, loc, p, "Renderer"); typed<Accel>(c, loc, p, "Accel"); typed<Volume>(c, loc, p, "Volume"); typed<Medium>(c, loc, p, "Medium"); typed<Model>(c, loc, p, "Model"); typed<Phase>(c, loc, p, "Phase"); typed<scheduler::Scheduler>(c, loc, p, "Scheduler");
    }
    // Distorted locators
    std::vector<std::string> locs; for (auto& l : all) locs.push_back(l.first);
    const std::string alphabet = ".$abgmx019_-: \n\t\xc3"; int distinct = 0;
    for (int i = 0; i < 25; i++) {
        std::string l = c.pick(locs); const int n = c.in(1, 2);
        for (int k = 0; k < n; k++) switch (c.in(0, 7)) {
            case 0: if (!l.empty()) l.erase(size_t(c.in(0, int(l.size()) - 1)), 1); break;
            case 1: l.insert(size_t(c.in(0, int(l.size()))), 1, alphabet[size_t(c.in(0, int(alphabet.size()) - 1))]); break;
            case 2: l += "."; break; case 3: l += "." + c.pick(std::vector<std::string>{ "x", "scheduler", "diffuse", "mesh", "0", "$", "assets" }); break;
            case 4: l = "$." + l; break; case 5: l = l.substr(0, size_t(c.in(0, int(l.size())))); break;
            case 6: if (!l.empty()) { auto& ch = l[size_t(c.in(0, int(l.size()) - 1))]; ch = char(isupper(ch) ? tolower(ch) : toupper(ch)); } break;
            default: { const auto j = l.find('.', size_t(c.in(0, int(l.size())))); if (j != std::string::npos) l.insert(j, "."); }
        }
        Component* q = nullptr; bool threw = false; std::string ex; try { q = lm::comp::get<Component>(l); } catch (const std::exception& e) { threw = true; ex = e.what(); }
        c.check(!threw, "get-throws", [&] { return "looking up '" + l + "' throws " + ex; });
        auto it = all.find(l);
        if (it != all.end()) c.check(q == it->second, "get", [&] { return l + " does not resolve to its component"; });
        else { distinct++; // names of references a component exposes (such as a material's texture) may resolve, to that asset
            bool ok = !q; if (q) { const auto d = l.rfind('.'); auto pit = d == std::string::npos ? all.end() : all.find(l.substr(0, d)); if (pit != all.end()) { bool weakref = false; pit->second->foreach_underlying([&](Component*& x, bool w) { if (w && x == q) weakref = true; }); ok = weakref && l.substr(d + 1) == "mapKd"; } }
            c.check(ok, "get-wrong", [&] { return "'" + l + "' resolves to " + q->key() + " at " + q->loc(); }); }
    }
    c.label("locators"); c.nontrivial = distinct > 0;
}
void directory(Ctx& c) {
    const std::string dir = getenv("VERIF_LIB_DIR") ? getenv("VERIF_LIB_DIR") : ".", d = c.scratch + "/plugins" + std::to_string(c.in(0, 1 << 30)); std::filesystem::create_directories(d); std::set<int> in;
    for (int n = 1; n <= 3; n++) if (c.coin()) { std::filesystem::copy_file(dir + "/vplug" + std::to_string(n) + ".so", d + "/vplug" + std::to_string(n) + ".so", std::filesystem::copy_options::overwrite_existing); in.insert(n); }
    if (c.coin()) std::ofstream(d + "/readme.txt") << "x"; if (c.coin()) std::ofstream(d + "/bad.so") << "garbage"; if (c.coin()) std::filesystem::create_directories(d + "/sub.so");
    const bool missing = c.chance(.1); bool threw = false; try { lm::comp::load_plugin_directory(missing ? d + "/nosuch" : d); } catch (const std::exception&) { threw = true; }
    c.check(!threw, "directory-throws", [&] { return std::string("loading a plugin directory raised an error (failures are to be reported and ignored)"); });
    std::filesystem::path probe(d); int loaded = 0; for (int n : in) { auto a = lm::comp::create<IfaceA>("vplug" + std::to_string(n) + "::a", "", {}); if (a) { loaded++; c.check(a->who() == "plug" + std::to_string(n) + ".a/", "plugin-wrong", [&] { return a->who(); }); } }
    c.note("directory with ", in.size(), " plugins, ", loaded, " available"); 
    if (!missing) c.check(loaded == int(in.size()), "directory", [&] { return "only " + std::to_string(loaded) + " of " + std::to_string(in.size()) + " plugins of the directory were loaded"; });
    lm::comp::unload_all_plugins(); std::filesystem::remove_all(d); c.label("directory"); c.nontrivial = !in.empty();
}
void run(Ctx& c) { const double u = c.unit(); if (u < .02) directory(c); else if (u < .6) registry(c); else locators(c); }
}
int main(int argc, char** argv) {
    pbt::Prop p; p.id = "P20";
    p.rule = "case = (a) history of 3-25 registrations, unregistrations (with aliases, four interfaces including templates), creations, releases, plugin loads and unloads (also failing ones) against a model of the registry; (b) generated assembly of assets of all built-in kinds in nested groups: every owned component is looked up by its locator as every interface, and 25 distorted locators are tried; (c) plugin directories with plugins and other files. Non-trivial: something was created, a locator that denotes nothing was tried, or the directory holds plugins.";
    p.assumptions = { "keys and aliases do not collide; what an unloaded plugin's keys do is only required not to yield another implementation" };
    p.run = run; p.worker_init = init_lm; p.quick_cases = 400000; p.thorough_cases = 30000000; p.quick_s = 30; p.thorough_s = 400; p.case_timeout = 60;
    return pbt::main(argc, argv, p);
}
