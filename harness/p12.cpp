// P12: mutated model files and mesh parameters under AddressSanitizer.
#include "objgen.h"
#include <lm/objloader.h>
#include <lm/model.h>
#include <lm/accel.h>
#include <lm/exception.h>
using namespace lmgen;
using namespace objgen;

namespace {
std::string weird(Ctx& c) {
    static const std::vector<std::string> w = { "0", "-1", "1", "2", "-2", "999999999", "-999999999", "2147483647", "2147483648", "-2147483648", "4294967297", "99999999999999999999", "nan", "-nan", "inf", "-inf", "1e999", "-1e308", "1e-320", "", "/", "//", "1/", "/1", "//1", "1//", "1/1/1/1", "1/-9/9", "-1/-1/-1", "9//9", "1//-99", "a", "#", "\\", "\t", "v", "f", "g", "usemtl", "newmtl", "mtllib", "m0.mtl", "m.obj", ".", "..", "map_Kd", "0x1p3", "1.5", "+3", "\r", "\"", "%s%n", "Kd", "Ke" };
    return w[c.raw(w.size() - 1)];
}
std::vector<std::string> split(const std::string& s, char d) { std::vector<std::string> r(1); for (char ch : s) if (ch == d) r.emplace_back(); else r.back() += ch; return r; }
std::string join(const std::vector<std::string>& v, char d) { std::string r; for (size_t i = 0; i < v.size(); i++) { if (i) r += d; r += v[i]; } return r; }

void mutate(Ctx& c, std::string& s) {
    const int n = c.weighted({ 1, 4, 3, 2, 1 });
    for (int k = 0; k < n; k++) {
        auto l = split(s, '\n');
        const size_t li = c.raw(l.size() - 1);
        switch (c.weighted({ 10, 3, 2, 2, 2, 2, 1, 1, 2, 1 })) {
            case 0: { auto t = split(l[li], ' '); t[c.raw(t.size() - 1)] = weird(c); l[li] = join(t, ' '); break; }        // replace a token
            case 1: { auto t = split(l[li], ' '); t.insert(t.begin() + c.raw(t.size()), weird(c)); l[li] = join(t, ' '); break; }
            case 2: { auto t = split(l[li], ' '); t.erase(t.begin() + c.raw(t.size() - 1)); l[li] = join(t, ' '); break; }
            case 3: l.erase(l.begin() + li); break;
            case 4: { const std::string x = l[li]; l.insert(l.begin() + c.raw(l.size()), x); break; }
            case 5: { const size_t lj = c.raw(l.size() - 1); std::swap(l[li], l[lj]); break; }
            case 6: l[li].resize(l[li].size() ? c.raw(l[li].size() - 1) : 0); break;
            case 7: { auto t = split(l[li], ' '); t[c.raw(t.size() - 1)] = std::string(c.pick(std::vector<int>{ 200, 255, 256, 257, 300, 4094, 4095, 4096, 5000 }), char('a' + c.in(0, 25))); l[li] = join(t, ' '); break; }
            case 8: { static const std::vector<std::string> cmds = { "f 1 2", "f 1", "f", "f ", "f 1 1 1", "f 1/1 2 3", "f 1//1 2//1 3", "f 1/1/1 2//1 3/1", "f 0 0 0", "f -1 -2 -3", "f 9 9 9", "usemtl none", "usemtl", "usemtl ", "newmtl", "newmtl ", "g", "g ", "mtllib none.mtl", "mtllib m0.mtl", "mtllib m.obj", "mtllib", "mtllib .", "v", "v ", "v 1", "vn", "vt 1", "illum", "illum x", "Kd", "Ns -5", "Ns -2", "aniso 5", "aniso", "Ni 0", "Ke -1 -1 -1", "Ke nan 1 1", "map_Kd none.png", "map_Kd", "map_Kd m.obj", "map_Kd .", "illum 5", "illum 7" };
                l.insert(l.begin() + c.raw(l.size()), c.pick(cmds)); break; }
            default: { std::string x; const int m = c.in(1, 12); for (int i = 0; i < m; i++) x += char(c.raw(255)); l[li].insert(c.raw(l[li].size()), x); break; }
        }
        s = join(l, '\n');
    }
    if (c.chance(.05)) s.resize(s.empty() ? 0 : c.raw(s.size() - 1));
}
// Vertex positions of a file all of whose vertex lines are plain numbers; otherwise `clean` is false.
std::vector<Vec3> positions(const std::string& obj, bool& clean) {
    std::vector<Vec3> r; clean = true;
    for (auto l : split(obj, '\n')) {
        size_t a = l.find_first_not_of(" \t"); if (a == std::string::npos) continue;
        l = l.substr(a); if (l.find('\0') != std::string::npos) { clean = false; return r; }
        if (l.size() < 2 || l[0] != 'v' || (l[1] != ' ' && l[1] != '\t')) continue;
        if (!l.empty() && l.back() == '\r') l.pop_back();
        if (l.find_first_not_of("0123456789+-.eE \t", 1) != std::string::npos) { clean = false; return r; }
        const char* p = l.c_str() + 2; Vec3 v;
        for (int i = 0; i < 3; i++) { char* e; while (*p == ' ' || *p == '\t') p++; v[i] = strtod(p, &e); if (e == p || (*e && *e != ' ' && *e != '\t' && *e != '\r')) { clean = false; return r; } p = e; }
        r.push_back(v);
    }
    return r;
}
volatile double g_sink;
void use(Vec3 v) { g_sink = v.x + v.y + v.z; }

// Exercises every query of a mesh; returns the vertices it reported.
void use_mesh(Ctx& c, const Mesh* m, const std::vector<Vec3>* pos, const std::string& what) {
    int n = 0;
    m->foreach_triangle([&](int f, const Mesh::Tri& t) {
        n++; use(t.p1.n); use(t.p2.n); use(t.p3.n); g_sink = t.p1.t.x + t.p2.t.y + t.p3.t.x;
        const auto q = m->triangle_at(f); use(q.p1.n); use(q.p2.n); use(q.p3.n); g_sink = q.p1.t.x + q.p2.t.y + q.p3.t.x;
        const auto s = m->surface_point(f, Vec2(.25, .5)); use(s.p); use(s.n); use(s.gn); g_sink = s.t.x + s.t.y;
        if (pos) for (auto& p : { t.p1.p, t.p2.p, t.p3.p, q.p1.p, q.p2.p, q.p3.p }) {
            bool ok = false; for (auto& v : *pos) ok |= (v.x == p.x || (v.x != v.x && p.x != p.x)) && (v.y == p.y || (v.y != v.y && p.y != p.y)) && (v.z == p.z || (v.z != v.z && p.z != p.z));
            c.check(ok, "foreign-data", [&] { return what + ": triangle " + std::to_string(f) + " has the vertex " + S(p) + " which is not in the file"; });
        }
    });
    c.check(m->num_triangles() == n, "count", [&] { return what + ": " + std::to_string(n) + " triangles listed, " + std::to_string(m->num_triangles()) + " reported"; });
}
void use_scene(Ctx& c, const std::function<void(Scene*)>& fill) {
    asset("accel", "accel::sahbvh", Json::object());
    auto* scene = get<Scene>(asset("scene", "scene::default", { {"accel", "$.assets.accel"} }));
    fill(scene);
    scene->build();
    for (int k = 0; k < 6; k++) {
        Ray r{ gen_vec(c, 12), gen_dir(c) };
        const auto h = scene->intersect(r);
        if (h && !h->geom.infinite) { use(h->geom.p); use(h->geom.n); auto* m = scene->node_at(h->primitive).primitive.material; if (m) { Material::ComponentSampleU u{ Vec2(c.unit(), c.unit()) }; const auto cs = m->sample_component(u, h->geom, -r.d); const auto ds = m->sample_direction({ Vec2(c.unit(), c.unit()), Vec2(c.unit(), c.unit()) }, h->geom, -r.d, cs.comp, Material::TransDir::EL); if (ds) use(m->eval(h->geom, -r.d, ds->wo, cs.comp, Material::TransDir::EL, false)); } }
    }
    const int nl = scene->num_lights();
    for (int k = 0; k < 3 && nl; k++) {
        const auto ls = scene->sample_light_selection(c.unit()); const auto lp = scene->light_primitive_index_at(ls.light_index);
        auto* l = scene->node_at(lp.index).primitive.light;
        if (const auto s = l->sample_position({ Vec2(c.unit_c(), c.unit_c()), c.unit_c() }, lp.global_transform)) { use(s->geom.p); use(l->eval(s->geom, s->geom.n, false)); }
    }
}
void files(Ctx& c) {
    mkdir((c.scratch + "/sub").c_str(), 0700);
    for (const char* f : { "/m0.mtl", "/m1.mtl", "/m.obj" }) unlink((c.scratch + f).c_str());
    Desc d = gen(c, false);
    std::string obj = d.obj; std::vector<std::string> mtl = d.mtl;
    if (c.chance(.85)) mutate(c, obj);
    for (auto& m : mtl) if (c.chance(.4)) mutate(c, m);
    if (c.chance(.03)) { obj.clear(); const int n = c.in(0, 400); for (int i = 0; i < n; i++) obj += char(c.raw(255)); }
    { std::ofstream f(c.scratch + "/m.obj", std::ios::binary); f << obj; }
    for (size_t i = 0; i < mtl.size(); i++) { std::ofstream f(c.scratch + "/m" + std::to_string(i) + ".mtl", std::ios::binary); f << mtl[i]; }
    c.note("files:\n", obj.substr(0, 2500)); for (auto& m : mtl) c.note("--- mtl\n", m.substr(0, 1200));
    bool clean; const auto pos = positions(obj, clean);
    int loaded = 0;
    const std::string path = c.scratch + "/m.obj";
    // rejected with an ordinary error, or usable
    const auto create = [&](const std::string& name, const std::string& key) -> bool {
        Component* p = nullptr;
        try { p = lm::assets()->load_asset(name, key, { {"path", path} }); } catch (const std::exception&) { return false; }
        return p != nullptr;
    };
    if (create("mesh", "mesh::wavefrontobj")) {
        loaded++; auto* m = get<Mesh>("$.assets.mesh"); use_mesh(c, m, clean ? &pos : nullptr, "mesh");
        asset("mat", "material::diffuse", Json::object());
        if (m->num_triangles()) use_scene(c, [&](Scene* s) { s->add_primitive({ {"mesh", "$.assets.mesh"}, {"material", "$.assets.mat"} }); });
    }
    if (create("model", "model::wavefrontobj")) {
        loaded++; auto* md = get<Model>("$.assets.model"); bool tri = false;
        md->create_primitives([&](Component* a, Component* b, Component* l) {
            auto* m = dynamic_cast<Mesh*>(a);
            c.check(m && dynamic_cast<Material*>(b) && (!l || dynamic_cast<Light*>(l)), "part-kind", [&] { return std::string("a part of the model is of another kind"); });
            use_mesh(c, m, clean ? &pos : nullptr, "model"); tri |= m->num_triangles() > 0;
        });
        if (tri) use_scene(c, [&](Scene* s) { s->add_primitive({ {"model", "$.assets.model"} }); });
    }
    c.label(loaded == 2 ? "accepted" : loaded == 1 ? "accepted-as-mesh-only" : "rejected");
    c.nontrivial = true;
}
// A well-formed file with one reference to something that does not exist: must be refused, and refusing it must
// leave nothing behind that changes what is loaded next.
void dangling(Ctx& c) {
    mkdir((c.scratch + "/sub").c_str(), 0700);
    const auto put = [&](const std::string& obj, const std::vector<std::string>& mtl) {
        for (const char* f : { "/m0.mtl", "/m1.mtl", "/m.obj" }) unlink((c.scratch + f).c_str());
        { std::ofstream f(c.scratch + "/m.obj", std::ios::binary); f << obj; }
        for (size_t i = 0; i < mtl.size(); i++) { std::ofstream f(c.scratch + "/m" + std::to_string(i) + ".mtl", std::ios::binary); f << mtl[i]; }
    };
    int seq = 0;
    const auto load = [&](const std::string& key) -> int {
        const std::string name = "a" + std::to_string(seq++); Component* p = nullptr;
        try { p = lm::assets()->load_asset(name, key, { {"path", c.scratch + "/m.obj"} }); } catch (const std::exception&) { return -1; }
        if (!p) return -1;
        int n = 0; if (auto* m = dynamic_cast<Mesh*>(p)) n = m->num_triangles(); else dynamic_cast<Model*>(p)->create_primitives([&](Component* a, Component*, Component*) { n += dynamic_cast<Mesh*>(a)->num_triangles(); });
        return n;
    };
    const auto tris = [](const Desc& d) { int n = 0; for (auto& f : d.faces) n += int(f.v.size()) - 2; return n; };
    const Desc before = gen(c, false); put(before.obj, before.mtl);
    const std::string key = c.coin() ? "mesh::wavefrontobj" : "model::wavefrontobj"; const bool model = key[1] == 'o';
    if (c.coin()) { const int n = load(key); c.check(n == tris(before), "good-file", [&] { return key + " of a well-formed file gives " + std::to_string(n) + " triangles of " + std::to_string(tris(before)); }); }
    const Desc d = gen(c, false);
    std::string bad; std::string obj = d.obj; auto mtl = d.mtl; const auto eol = d.obj.find("\r\n") != std::string::npos ? "\r\n" : "\n";
    const int np = int(d.ps.size()), nt = int(d.ts.size()), nn = int(d.ns.size());
    const auto far = [&](int n) { return c.pick(std::vector<int>{ n + 1, n + 2, n + 100, 2147483647, -n - 2, -n - 100, -2147483647 }); };
    switch (c.in(0, model ? 5 : 4)) {
        case 0: { int v[3] = { 1, 2, 3 }; v[c.in(0, 2)] = c.chance(.2) ? 0 : c.chance(.2) ? -np - 1 : far(np); bad = "f " + std::to_string(v[0]) + " " + std::to_string(v[1]) + " " + std::to_string(v[2]); break; }
        case 1: bad = "f 1/" + std::to_string(far(nt)) + " 2 3"; break;
        case 2: bad = "f 1//" + std::to_string(far(nn)) + " 2 3"; break;
        case 3: { std::string n = "undefined"; if (!before.mats.empty() && c.coin()) n = c.pick(before.mats).name; for (auto& m : d.mats) if (m.name == n) n = "undefined"; bad = "usemtl " + n; break; }
        case 4: bad = "mtllib nothere.mtl"; break;
        default: if (mtl.empty()) { bad = "usemtl undefined"; break; } mtl.back() += std::string(eol) + "newmtl zz" + eol + "Kd 1 1 1" + eol + "map_Kd nothere.png" + eol;
    }
    if (!bad.empty()) {  // after the vertices
        auto l = split(obj, '\n'); size_t first = 0, last = l.size(); int seen = 0;
        for (size_t i = 0; i < l.size(); i++) { const auto a = l[i].find_first_not_of(" \t"); if (a != std::string::npos && l[i][a] == 'v') first = i + 1; }
        seen = int(first); if (seen > int(last)) seen = int(last);
        if (obj.empty() || obj.back() != '\n') { l.push_back(""); if (eol[0] == '\r') l[l.size() - 2] += '\r'; last = l.size() - 1; } else last = l.size() - 1;
        l.insert(l.begin() + std::min<size_t>(seen + c.raw(last - std::min<size_t>(seen, last)), last), bad + (eol[0] == '\r' ? "\r" : "")); obj = join(l, '\n');
    }
    c.note(key, " with a dangling reference '", bad, "'; file:\n", obj.substr(0, 2000)); for (auto& m : mtl) c.note("--- mtl\n", m.substr(0, 800));
    put(obj, mtl);
    const int r = load(key);
    c.check(r < 0, "dangling-accepted", [&] { return key + ": a file with '" + (bad.empty() ? std::string("map_Kd nothere.png") : bad) + "' (nothing of that kind exists) was loaded with " + std::to_string(r) + " triangles"; });
    put(d.obj, d.mtl);
    const int n = load(key);
    c.check(n == tris(d), "after-refusal", [&] { return key + ": after a refused file, a well-formed one gives " + std::to_string(n) + " triangles of " + std::to_string(tris(d)); });
    c.label("dangling"); c.nontrivial = true;
}
Json odd_value(Ctx& c, int depth = 0) {
    switch (c.in(0, depth ? 9 : 11)) {
        case 0: return nullptr; case 1: return c.coin(); case 2: return c.in(-3, 12); case 3: return c.real(-3, 3); case 4: return "x"; case 5: return Json::object(); case 6: return Json::array();
        case 7: return 2147483648.0; case 8: return -1; case 9: return 1e300;
        case 10: { Json a = Json::array(); const int n = c.in(1, 7); for (int i = 0; i < n; i++) a.push_back(odd_value(c, 1)); return a; }
        default: return Json{ {"p", Json::array({ 0, 1, 2 })} };
    }
}
void inline_mesh(Ctx& c) {
    Json j = gen_mesh(c, 6).json();
    const int n = c.weighted({ 1, 5, 3, 1 });
    for (int k = 0; k < n; k++) {
        const bool face = c.coin(); const std::string key = face ? c.pick(std::vector<std::string>{ "p", "t", "n" }) : c.pick(std::vector<std::string>{ "ps", "ns", "ts", "fs" });
        if (face && (!j.contains("fs") || !j["fs"].is_object())) continue;
        Json& o = face ? j["fs"] : j;
        switch (c.weighted({ 3, 2, 2, 6, 2 })) {
            case 0: o.erase(key); break;
            case 1: o[key] = odd_value(c); break;
            case 2: if (o.contains(key) && o[key].is_array() && !o[key].empty()) o[key].erase(o[key].begin() + c.raw(o[key].size() - 1)); break;
            case 3: if (o.contains(key) && o[key].is_array() && !o[key].empty()) o[key][c.raw(o[key].size() - 1)] = c.coin() ? Json(c.pick(std::vector<long long>{ -1, 0, 1, 1000, -1000, 2147483647, -2147483648LL, 3000000000LL })) : odd_value(c, 1); break;
            default: if (o.contains(key) && o[key].is_array()) o[key].push_back(c.in(0, 4)); break;
        }
    }
    c.note("mesh::raw ", j.dump());
    bool ok = false; try { ok = lm::assets()->load_asset("mesh", "mesh::raw", j) != nullptr; } catch (const std::exception&) {}
    if (ok) {
        auto* m = get<Mesh>("$.assets.mesh"); std::vector<Vec3> pos; bool clean = j["ps"].is_array();
        if (clean) for (size_t i = 0; i + 2 < j["ps"].size(); i += 3) { if (!j["ps"][i].is_number() || !j["ps"][i + 1].is_number() || !j["ps"][i + 2].is_number()) { clean = false; break; } pos.push_back(Vec3(j["ps"][i], j["ps"][i + 1], j["ps"][i + 2])); }
        use_mesh(c, m, clean ? &pos : nullptr, "inline mesh");
        asset("mat", "material::diffuse", Json::object());
        if (m->num_triangles()) use_scene(c, [&](Scene* s) { s->add_primitive({ {"mesh", "$.assets.mesh"}, {"material", "$.assets.mat"} }); });
    }
    c.label(ok ? "inline-accepted" : "inline-rejected"); c.nontrivial = true;
}
void run(Ctx& c) {
    lm::reset();
    switch (c.weighted({ 50, 25, 25 })) { case 0: files(c); break; case 1: inline_mesh(c); break; default: dangling(c); }
}
}
int main(int argc, char** argv) {
    pbt::Prop p; p.id = "P12";
    p.rule = "case = a generated OBJ file with its MTL files after 0-4 mutations each (tokens replaced by extreme or malformed ones, lines removed, duplicated, swapped, truncated, random bytes, overlong tokens, ill-formed commands) loaded as mesh and as model, or an inline mesh with damaged parameters, or a well-formed file with one reference to a vertex, material, library or texture that does not exist (must be refused; the intact file must load afterwards); whatever loads is queried completely (all triangles, all vertices present in the file, scene build, ray queries, material and light sampling). Runs under AddressSanitizer; a sanitizer report, signal or hang is a failure. Non-trivial: every case.";
    p.assumptions = { "built-in OBJ loader; files of up to about 10 kB", "referenced textures are well-formed or absent" };
    p.run = run; p.worker_init = init_lm; p.quick_cases = 400000; p.thorough_cases = 30000000; p.quick_s = 30; p.thorough_s = 400; p.case_timeout = 20;
    return pbt::main(argc, argv, p);
}
