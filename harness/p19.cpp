// P19: failed asset creation leaves everything else intact.
#include "asmgen.h"
using namespace asmgen;

namespace {
// Component whose construct() fails in several ways
struct FailComp final : Component {
    int state = 0;
    void construct(const Json& prop) override {
        state = 1; const std::string how = prop["how"];
        if (how == "lookup") { if (lm::comp::get<Component>(loc()) != this) throw std::runtime_error("not registered while constructing"); }
        if (how == "nested") { auto* g = lm::comp::get<AssetGroup>(prop["group"].get<std::string>()); g->load_asset(prop["other"].get<std::string>(), "texture::constant", { {"color", { .25, .5, 1. }} }); }
        if (how == "nested-fail") { auto* g = lm::comp::get<AssetGroup>(prop["group"].get<std::string>()); try { g->load_asset(prop["other"].get<std::string>(), "texture::constant", Json::object()); } catch (const std::exception&) {} }
        if (how == "lm") LM_THROW_EXCEPTION(Error::IOError, "failing on purpose");
        throw std::runtime_error("failing on purpose");
    }
};
LM_COMP_REG_IMPL(FailComp, "verif::fail");

// Parameters without which an asset cannot be made. V vector, F number, S string, R reference, A array, I integer, P path of a file
struct Req { const char* name; char type; };
const std::map<std::string, std::vector<Req>> required = {
    { "texture::constant", { {"color", 'V'} } }, { "texture::bitmap", { {"path", 'P'} } },
    { "mesh::raw", { {"ps", 'A'}, {"ns", 'A'}, {"ts", 'A'}, {"fs", 'A'} } }, { "mesh::wavefrontobj", { {"path", 'P'} } }, { "model::wavefrontobj", { {"path", 'P'} } },
    { "material::glass", { {"Ni", 'F'} } }, { "material::glossy", { {"Ks", 'V'}, {"ax", 'F'}, {"ay", 'F'} } }, { "material::proxy", { {"ref", 'R'} } },
    { "light::area", { {"Ke", 'V'}, {"mesh", 'R'} } }, { "light::point", { {"Le", 'V'}, {"position", 'V'} } }, { "light::directional", { {"Le", 'V'}, {"direction", 'V'} } }, { "light::envconst", { {"Le", 'V'} } }, { "light::env", { {"path", 'P'} } },
    { "film::bitmap", { {"w", 'I'}, {"h", 'I'} } }, { "phase::hg", { {"g", 'F'} } },
    { "medium::homogeneous", { {"density", 'F'}, {"albedo", 'V'}, {"phase", 'R'} } }, { "medium::heterogeneous", { {"volume_density", 'R'}, {"volume_albedo", 'R'}, {"phase", 'R'} } },
    { "volume::checker", { {"bound_min", 'V'}, {"bound_max", 'V'} } }, { "volume::multi", { {"volumes_alb", 'L'}, {"volumes_den", 'L'} } },
    { "renderer::blank", { {"color", 'V'}, {"output", 'R'} } }, { "renderer::raycast", { {"scene", 'R'}, {"output", 'R'} } },
    { "renderer::pt", { {"scene", 'R'}, {"output", 'R'}, {"max_verts", 'I'}, {"scheduler", 'N'} } }, { "renderer::lt", { {"scene", 'R'}, {"output", 'R'}, {"max_verts", 'I'}, {"scheduler", 'N'} } },
    { "renderer::bdpt", { {"scene", 'R'}, {"output", 'R'}, {"max_verts", 'I'}, {"scheduler", 'N'} } }, { "renderer::bdptopt", { {"scene", 'R'}, {"output", 'R'}, {"max_verts", 'I'}, {"scheduler", 'N'} } },
    { "renderer::volpt", { {"scene", 'R'}, {"output", 'R'}, {"max_verts", 'I'}, {"scheduler", 'N'} } }, { "renderer::volpt_naive", { {"scene", 'R'}, {"output", 'R'}, {"max_verts", 'I'}, {"scheduler", 'N'} } },
};
const std::map<std::string, std::string> iface = { {"ref", "mat"}, {"material", "mat"}, {"mesh", "mesh"}, {"phase", "phase"}, {"volume_density", "vol"}, {"volume_albedo", "vol"}, {"output", "film"}, {"scene", "scene"} };

Json bad_ref(Ctx& c, const Assembly& a, const std::string& field, std::string& what, const std::string& self) {
    std::vector<Json> v = { "@nosuch", "nosuch", "$.assets.nosuch.x", "$.", "$.assets.", "", "$$", ".", "$.assets..g", 3.5, Json::array(), nullptr };
    if (c.coin()) { // an asset of another kind
        auto it = iface.find(field); std::vector<std::string> o;
        for (auto& s : a.as) { const std::string k = s.kind.compare(0, 3, "vol") == 0 ? "vol" : s.kind == "lmesh" ? "mesh" : s.kind; if (s.name != self && (it == iface.end() || k != it->second)) o.push_back(s.name); }
        if (it != iface.end() && !o.empty()) { what = "reference of another kind"; return "@" + c.pick(o); }
    }
    what = "bad reference"; return c.pick(v);
}
Json bad_value(Ctx& c, char t) {
    const Json N[] = { "1", Json::array(), Json::object(), nullptr }, V[] = { "x", 1.5, { 1., 2. }, { 1., 2., 3., 4. }, { 1., "2", 3. }, Json::object(), nullptr, Json::array({ 1., nullptr, 2. }) }, S[] = { 1, 2.5, Json::array(), Json::object(), nullptr }, A[] = { 1, "x", nullptr };
    switch (t) { case 'F': case 'I': return N[c.in(0, 3)]; case 'V': return V[c.in(0, 7)]; case 'A': return A[c.in(0, 2)]; case 'L': return c.coin() ? Json("x") : Json::array({ 1 }); default: return S[c.in(0, 4)]; }
}
std::string bad_file(Ctx& c, const std::string& key, int id, std::string& what) {
    const std::string p = c.scratch + "/bad" + std::to_string(id); const bool obj = key.find("wavefrontobj") != std::string::npos;
    switch (c.in(0, obj ? 1 : 4)) {
        case 0: what = "missing file"; return p + ".nosuch.obj";
        case 1: what = "a directory instead of a file"; { std::filesystem::create_directories(p + ".d"); return p + ".d"; }
        case 2: what = "empty file"; { std::ofstream(p + ".png"); return p + ".png"; }
        case 3: { what = "garbage file"; imgio::Bytes b; for (int i = c.in(1, 60); i > 0; i--) b.push_back((unsigned char)c.in(0, 200)); if (b[0] == 'P') b[0] = 'X'; if (b[0] == 0) b[0] = 7; imgio::write(p + ".png", b); return p + ".png"; }
        default: { what = "truncated file"; int w, h, ch; put_image(p + "f.png", c, w, h, ch); std::ifstream is(p + "f.png", std::ios::binary); std::string s((std::istreambuf_iterator<char>(is)), {}); s.resize(size_t(c.in(0, 40))); std::ofstream(p + "t.png", std::ios::binary) << s; return p + "t.png"; }
    }
}
std::string kind_of(const std::string& key) { return key.substr(0, key.rfind("_path") == std::string::npos ? key.size() : key.size()); }

// Turns a working specification into one that cannot work. Returns false when there is no way to.
bool spoil(Ctx& c, const Assembly& a, ASpec& s, std::string& what, int id, const std::string& self) {
    if (s.key.compare(0, 35, "material::constant_weight_mixture") == 0 || s.key.find("constant_weight_mixture") != std::string::npos) {
        if (s.prop.empty()) return false;
        auto& e = s.prop[c.in(0, int(s.prop.size()) - 1)];
        switch (c.in(0, 3)) { case 0: e.erase("material"); what = "missing material"; return true; case 1: e.erase("weight"); what = "missing weight"; return true; case 2: e["weight"] = bad_value(c, 'F'); what = "weight " + e["weight"].dump(); return true; default: e["material"] = bad_ref(c, a, "material", what, self); return true; }
    }
    std::string key = s.key; auto it = required.find(key);
    if (it == required.end()) for (auto& r : required) if (r.first.compare(0, 8, "renderer") == 0 && key.compare(0, r.first.size(), r.first) == 0 && (it == required.end() || r.first.size() > it->first.size())) it = required.find(r.first);
    static const std::map<std::string, std::vector<Req>> optional = { { "texture::constant", { {"alpha", 'F'} } }, { "texture::bitmap", { {"flip", 'S'} } }, { "renderer::pt", { {"sampling_mode", 'M'}, {"primary_ray_sampling_mode", 'M'}, {"seed", 'F'} } }, { "renderer::raycast", { {"color", 'V'} } }, { "renderer::volpt", { {"rr_prob", 'F'}, {"seed", 'F'} } }, { "volume::constant", { {"color", 'V'}, {"scalar", 'F'} } }, { "volume::sphere", { {"radius", 'F'}, {"pos", 'V'} } }, { "film::bitmap", { {"quality", 'F'} } } };
    if (auto ot = optional.find(s.key); ot != optional.end() && c.chance(.2)) { const auto& r = ot->second[size_t(c.in(0, int(ot->second.size()) - 1))]; s.prop[r.name] = r.type == 'M' ? (c.coin() ? Json("nosuch") : bad_value(c, 'S')) : r.type == 'S' ? Json("yes") : bad_value(c, r.type); what = std::string(r.name) + " = " + s.prop[r.name].dump(); return true; }
    if (it == required.end()) return false;
    const auto& r = it->second[size_t(c.in(0, int(it->second.size()) - 1))];
    const double u = c.unit();
    if (u < .05) { what = "parameters that are no object"; s.prop = c.pick(std::vector<Json>{ 3, "x", Json::array(), Json() }); return true; }
    if (u < .3 || !s.prop.contains(r.name)) { s.prop.erase(r.name); what = std::string("missing ") + r.name; return true; }
    Json bad;
    if (r.type == 'R') bad = bad_ref(c, a, r.name, what, self);
    else if (r.type == 'P') { if (c.chance(.8)) bad = bad_file(c, key, id, what); else bad = bad_value(c, 'S'); }
    else if (r.type == 'L' && c.coin()) { bad = s.prop[r.name]; if (c.coin() && !bad.empty()) { bad[size_t(c.in(0, int(bad.size()) - 1))] = "@nosuch"; what = "bad reference in list"; } else bad.push_back("@nosuch"); }
    else if (r.type == 'N' && c.coin()) { bad = c.pick(std::vector<std::string>{ "nosuch", "", "Sample", "time " }); what = "unknown scheduler"; }
    else bad = bad_value(c, r.type == 'N' ? 'S' : r.type);
    what = std::string(r.name) + " = " + bad.dump() + (what.empty() ? "" : " (" + what + ")");
    s.prop[r.name] = bad; return true;
}

void run(Ctx& c) {
    lm::reset(); lm::parallel::init("openmp", { {"num_threads", 1} });
    auto a = gen(c, c.chance(.5)); if (c.chance(.4)) nest(c, a);
    auto* g = dynamic_cast<AssetGroup*>(lm::assets()->load_asset("g", "asset_group::default", Json::object()));
    // Load some first, others later with failures in between
    const auto order = topo(a); const size_t first = size_t(c.in(0, int(order.size()))); size_t loaded = 0;
    std::vector<std::string> names; std::set<std::string> never;
    auto load_next = [&] { const auto& s = *a.find(order[loaded]); auto* p = load_one(g, a, s); populate(g, a, s, p); names.push_back(order[loaded]); loaded++; };
    auto part = [&] { Assembly b; for (auto& s : a.as) if (std::find(names.begin(), names.end(), s.name) != names.end()) { b.as.push_back(s); auto it = a.ops.find(s.name); if (it != a.ops.end()) b.ops[s.name] = it->second; } return b; };
    while (loaded < first) load_next();
    const int steps = c.in(1, 5); int fails = 0; std::string desc;
    for (int i = 0; i < steps; i++) {
        while (loaded < order.size() && c.chance(.4)) load_next();
        Assembly now = part(); if (now.as.empty() && loaded < order.size()) { load_next(); now = part(); } if (now.as.empty()) throw pbt::Discard{};
        const auto before = fingerprint_all(g, now, false);
        // The name: of an existing asset, of one that comes later, or a new one
        const int where = c.in(0, 2); std::string name; ASpec s; std::string what, how;
        if (where == 0) { s = now.as[size_t(c.in(0, int(now.as.size()) - 1))]; name = s.name; }
        else if (where == 1 && loaded < order.size()) { s = *a.find(order[loaded]); name = s.name; }
        else { s = a.as[size_t(c.in(0, int(a.as.size()) - 1))]; name = "new" + std::to_string(i % 2); }
        const bool existed = std::find(names.begin(), names.end(), name) != names.end();
        std::string base = name; auto* grp = group_of(g, base);
        const int kind = c.in(0, 10); std::function<Component*()> act; bool denotes = true;
        if (kind <= 4) { ASpec t = c.chance(.3) ? a.as[size_t(c.in(0, int(a.as.size()) - 1))] : s; if (!spoil(c, now, t, what, i, name)) continue; how = "load_asset " + name + " " + t.key + ": " + what; act = [=] { return grp->load_asset(base, t.key, resolve(t.prop, g->loc())); }; c.label("spoil-" + t.key); }
        else if (kind == 5) { const auto key = c.pick(std::vector<std::string>{ "texture::nosuch", "", "texture", "texture::constant ", "TEXTURE::constant", "material::", "::" }); how = "load_asset " + name + " unknown type '" + key + "'"; act = [=] { return grp->load_asset(base, key, s.prop); }; }
        else if (kind == 6) { const auto bn = c.pick(std::vector<std::string>{ "", " ", "a b", "a.b", "$", "x/y", "n\n", "a$", "@a", "caf\xc3\xa9", std::string(size_t(c.in(20, 300)), 'n') + c.pick(std::vector<std::string>{ ".", " ", "$", ".x", "\n" }), std::string(1, '\0') }); how = "load_asset with invalid name '" + bn + "'"; denotes = false; act = [=] { return grp->load_asset(bn, "texture::constant", { {"color", { .1, .2, .3 }} }); }; }
        else if (kind == 7) { const auto h = c.pick(std::vector<std::string>{ "std", "lm", "lookup", "nested", "nested-fail" }); how = "load_asset " + name + " failing component (" + h + ")"; const std::string other = "extra" + std::to_string(i); act = [=] { return grp->load_asset(base, "verif::fail", { {"how", h}, {"group", g->loc()}, {"other", other} }); };
            if (h == "nested") never.insert("+" + other); }
        else if (kind == 10) { // whole state
            const std::string path = c.scratch + "/state" + std::to_string(i); denotes = false; const int m = c.in(0, 3);
            if (m == 0) { how = "load_state_from_file of a missing file"; act = [=] { lm::load_state_from_file(path + ".nosuch"); return g; }; }
            else if (m == 1) { how = "save_state_to_file into a missing directory"; act = [=] { lm::save_state_to_file(path + ".nodir/x"); return g; }; }
            else { bool ok = true; try { lm::save_state_to_file(path); } catch (const std::exception&) { ok = false; } c.check(ok, "save-state", [&] { return std::string("the state cannot be saved"); });
                const auto n = size_t(std::filesystem::file_size(path)); const size_t cut = size_t(c.in(0, int(n) - 1)); std::filesystem::resize_file(path, cut); how = "load_state_from_file truncated to " + std::to_string(cut) + " of " + std::to_string(n) + " bytes"; act = [=] { lm::load_state_from_file(path); return g; }; }
        }
        else { // serialized
            std::string path = c.scratch + "/ser" + std::to_string(i); std::string full;
            { // a self-contained asset
                const auto& t = now.as[size_t(c.in(0, int(now.as.size()) - 1))]; Component* p = lm::comp::get<Component>(g->loc() + "." + t.name); std::ostringstream os; bool ok = true;
                try { if (c.coin()) lm::serial::save_comp_owned(os, g, g->loc()); else lm::serial::save_comp_owned(os, p, p->loc()); } catch (const std::exception&) { ok = false; }
                if (!ok) continue; full = os.str();
            }
            std::string cut = full; const int m = c.in(0, 3);
            if (existed) { how = "load_serialized under the taken name " + name; }
            else if (m == 0) { path += ".nosuch"; how = "load_serialized of a missing file"; cut.clear(); }
            else if (m == 1) { path += ".d"; std::filesystem::create_directories(path); how = "load_serialized of a directory"; cut.clear(); }
            else { cut.resize(size_t(c.in(0, int(full.size()) - 1))); how = "load_serialized " + name + " truncated to " + std::to_string(cut.size()) + " of " + std::to_string(full.size()) + " bytes"; }
            if (!cut.empty() || m > 1 || existed) std::ofstream(path, std::ios::binary) << cut;
            act = [=] { return grp->load_serialized(base, path); };
        }
        c.note("\n", how, existed ? " (existing)" : ""); desc = how; fails++; c.label(existed ? "existing" : "new");
        bool err = false; Component* p = nullptr;
        try { p = act(); err = !p; } catch (const std::exception&) { err = true; }
        c.check(err, "no-error", [&] { return how + " did not fail"; });
        auto gone = [&](const std::string& n) { Component* q = nullptr; try { q = lm::comp::get<Component>(g->loc() + "." + n); } catch (const std::exception&) {} return !q; };
        if (denotes && !existed) c.check(gone(name), "half-made", [&] { return how + ": the name denotes an asset afterwards"; });
        if (denotes && existed) c.check(!gone(name), "old-lost", [&] { return how + ": the existing asset is gone afterwards"; });
        const auto after = fingerprint_all(g, now, false); const auto d = diff(before, after);
        c.check(d.empty(), "changed", [&] { return how + ": other assets changed: before " + d; });
        if (kind == 7) for (auto& n : never) if (n[0] == '+') { auto* t = lm::comp::get<Texture>(g->loc() + "." + n.substr(1)); c.check(t && t->eval(Vec2(0)) == Vec3(.25, .5, 1), "nested-lost", [&] { return how + ": an asset made successfully meanwhile is not usable"; }); }
    }
    if (!fails) throw pbt::Discard{};
    while (loaded < order.size()) load_next();
    // Replacing and creating under names used before works
    for (int i = c.in(0, 2); i > 0; i--) { const auto& s = a.as[size_t(c.in(0, int(a.as.size()) - 1))]; if (s.kind == "scene" || s.kind == "accel" || s.kind == "mesh" || s.kind == "lmesh" || s.kind == "light" || s.kind == "env" || s.kind == "model") continue; auto* p = load_one(g, a, s); populate(g, a, s, p); }
    for (int k = 0; k < 2; k++) { auto* p = dynamic_cast<Texture*>(g->load_asset("new" + std::to_string(k), "texture::constant", { {"color", { .5, .25, .125 }} })); c.check(p && p->eval(Vec2(0)) == Vec3(.5, .25, .125) && lm::comp::get<Texture>(g->loc() + ".new" + std::to_string(k)) == p, "later-create", [&] { return "creating an asset under a name that failed before does not work"; }); }
    for (auto& s : a.as) if (s.kind == "film") populate(g, a, s, lm::comp::get<Component>(g->loc() + "." + s.name));
    // Saving and loading still works
    const auto f = fingerprint_all(g, a);
    auto* h = dynamic_cast<AssetGroup*>(lm::assets()->load_asset("h", "asset_group::default", Json::object()));
    for (auto& n : topo(a)) { const auto& s = *a.find(n); auto* p = load_one(h, a, s); populate(h, a, s, p); }
    const auto f2 = fingerprint_all(h, a); auto d = diff(f, f2);
    c.check(d.empty(), "final", [&] { return "after failures: " + d + " (without failures)"; });
    if (c.chance(.3)) {
        for (auto& s : a.as) if (s.kind == "film") populate(g, a, s, lm::comp::get<Component>(g->loc() + "." + s.name));
        const auto f3 = fingerprint_all(g, a, false); std::ostringstream os; lm::serial::save_comp_owned(os, g, g->loc()); std::ofstream(c.scratch + "/all", std::ios::binary) << os.str();
        auto* k = dynamic_cast<AssetGroup*>(lm::assets()->load_serialized("k", c.scratch + "/all")); c.check(k, "save-load", [&] { return std::string("cannot reload the state after failures"); });
        const auto f4 = fingerprint_all(k, a, false); d = diff(f3, f4); c.check(d.empty(), "save-load", [&] { return "after failures, saving and reloading: " + d; });
    }
    c.nontrivial = true;
}
}
int main(int argc, char** argv) {
    pbt::Prop p; p.id = "P19";
    p.rule = "case = generated assembly of assets of all built-in kinds (also in nested groups), created step by step with 1-5 failing creations in between, under a new, later used or existing name: unknown type, invalid name, missing or wrongly typed parameter, dangling or wrong-kind reference, missing/garbage/truncated file, component throwing while constructing (also after creating other assets), load_serialized of a missing or truncated file or under a taken name. After each failure: an error was reported, the name denotes nothing new, and every query of every component is bit-identical to before; at the end everything equals the same assembly made without failures, renders and save/load included. Non-trivial: at least one failing creation took place.";
    p.assumptions = { "parameters are spoiled only in ways that cannot denote a working asset (required parameter missing, wrong JSON kind, wrong length)", "one process, AddressSanitizer" };
    p.run = run; p.worker_init = init_lm; p.quick_cases = 400000; p.thorough_cases = 30000000; p.quick_s = 40; p.thorough_s = 500; p.case_timeout = 60;
    return pbt::main(argc, argv, p);
}
