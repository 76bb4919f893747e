// P11: generated OBJ/MTL files (and inline meshes) against the generator's own description.
#include "lmgen.h"
#include "matgen.h"
#include "objgen.h"
#include <lm/objloader.h>
#include <lm/model.h>
using namespace lmgen;
using namespace objgen;

namespace {
struct ETri { V v[3]; int mat; };
bool same(const Vec3& a, const Vec3& b, double tol) { return tol == 0 ? a == b : near(a, b, tol, 1e-300); }

// Compares one triangle of a mesh in all the ways the mesh can be queried.
void check_tri(Ctx& c, const Mesh* m, int fi, const Mesh::Tri& listed, const Desc& d, const ETri& e, double tol, const std::string& what) {
    const auto at = m->triangle_at(fi);
    const auto pt = [&](const Mesh::Tri& t, int k) -> const Mesh::Point& { return k == 0 ? t.p1 : k == 1 ? t.p2 : t.p3; };
    Vec3 p[3], n[3]; Vec2 t[3];
    for (int k = 0; k < 3; k++) {
        p[k] = d.ps[e.v[k].p]; n[k] = e.v[k].n < 0 ? Vec3(0) : d.ns[e.v[k].n]; t[k] = e.v[k].t < 0 ? Vec2(0) : d.ts[e.v[k].t];
        for (const auto* tr : { &listed, &at }) {
            const auto& q = pt(*tr, k);
            c.check(same(q.p, p[k], tol), "position", [&] { return what + " vertex " + std::to_string(k) + " is " + S(q.p) + ", the file says " + S(p[k]); });
            if (e.v[k].n >= 0) c.check(same(q.n, n[k], tol), "normal", [&] { return what + " normal " + S(q.n) + ", the file says " + S(n[k]); });
            if (e.v[k].t >= 0) c.check(same(Vec3(q.t, 0), Vec3(t[k], 0), tol), "texcoord", [&] { return what + " texture coordinate " + S(q.t) + ", the file says " + S(t[k]); });
        }
    }
    const double u = c.unit(), v = (1 - u) * c.unit(), w = 1 - u - v;
    const auto sp = m->surface_point(fi, Vec2(u, v));
    const Vec3 ep = p[0] * w + p[1] * u + p[2] * v; const Vec3 g = tri_cross(p[0], p[1], p[2]); const double A = std::sqrt(dot_(g, g));
    double mag = 0; for (auto& x : p) for (int i = 0; i < 3; i++) mag = std::max(mag, std::fabs(x[i]));
    c.check(near(sp.p, ep, 1e-9, 1e-9 * mag), "surface-position", [&] { return what + " interpolated position " + S(sp.p) + " expected " + S(ep); });
    const double L1 = std::sqrt(dot_(p[1] - p[0], p[1] - p[0])), L2 = std::sqrt(dot_(p[2] - p[0], p[2] - p[0]));
    const bool fat = A > 1e-5 * L1 * L2 && L1 > 1e-5 * mag && L2 > 1e-5 * mag;
    if (fat) c.check(near(sp.gn, g / A, 1e-5, 1e-5), "surface-gn", [&] { return what + " geometry normal " + S(sp.gn) + " expected " + S(g / A); });
    if (e.v[0].n < 0 || e.v[1].n < 0 || e.v[2].n < 0) { if (fat) c.check(near(sp.n, g / A, 1e-5, 1e-5), "surface-normal", [&] { return what + " normal " + S(sp.n) + " expected the geometry normal " + S(g / A); }); }
    else { const Vec3 mn = n[0] * w + n[1] * u + n[2] * v; if (dot_(mn, mn) > 1e-6) c.check(near(sp.n, unit(mn), 1e-6, 1e-6), "surface-normal", [&] { return what + " normal " + S(sp.n) + " expected " + S(unit(mn)); }); }
    const Vec2 et = e.v[0].t < 0 || e.v[1].t < 0 || e.v[2].t < 0 ? Vec2(0) : t[0] * w + t[1] * u + t[2] * v;
    c.check(near(Vec3(sp.t, 0), Vec3(et, 0), 1e-9, 1e-9), "surface-texcoord", [&] { return what + " texture coordinate " + S(sp.t) + " expected " + S(et); });
}
// Checks a mesh against a run of expected triangles starting at index `pos`; returns the number of triangles of the mesh.
// With `alt`, quads (two consecutive triangles) may be split along the other diagonal.
size_t check_mesh(Ctx& c, const Mesh* m, const Desc& d, const std::vector<ETri>& exp, const std::vector<int>& quad, size_t pos, double tol, bool alt, const std::string& what) {
    std::vector<std::pair<int, Mesh::Tri>> l;
    m->foreach_triangle([&](int f, const Mesh::Tri& t) { l.push_back({ f, t }); });
    c.check(m->num_triangles() == int(l.size()), "count", [&] { return what + " lists " + std::to_string(l.size()) + " triangles and reports " + std::to_string(m->num_triangles()); });
    for (size_t i = 0; i < l.size(); i++) {
        c.check(l[i].first == int(i), "face-index", [&] { return what + " triangle " + std::to_string(i) + " is listed with index " + std::to_string(l[i].first); });
        c.check(pos + i < exp.size(), "extra-triangles", [&] { return what + " has more triangles than the file"; });
        if (alt && quad[pos + i] == 1 && i + 1 < l.size()) {
            // vertices of the quad in order: a b c d; the file's fan is (a b c)(a c d), the other split is (a b d)(b c d)
            const auto &A = exp[pos + i], &B = exp[pos + i + 1];
            const auto eqp = [&](const Mesh::Point& q, int pi) { return same(q.p, d.ps[pi], tol); };
            const auto fan = [&](const Mesh::Tri& t, const ETri& E) { return eqp(t.p1, E.v[0].p) && eqp(t.p2, E.v[1].p) && eqp(t.p3, E.v[2].p); };
            if (!(fan(l[i].second, A) && fan(l[i + 1].second, B))) {
                const V a = A.v[0], b = A.v[1], q = A.v[2], r = B.v[2];
                check_tri(c, m, int(i), l[i].second, d, ETri{ { a, b, r }, A.mat }, tol, what); i++;
                check_tri(c, m, int(i), l[i].second, d, ETri{ { b, q, r }, A.mat }, tol, what);
                continue;
            }
        }
        check_tri(c, m, int(i), l[i].second, d, exp[pos + i], tol, what + " triangle " + std::to_string(i));
    }
    return l.size();
}
void check_material(Ctx& c, const Material* m, const Desc& d, int mi, const Json& opt, const std::string& what) {
    Mat e; if (mi >= 0) e = d.mats[mi]; else { e.name = "default"; e.illum = -1; e.Kd = Vec3(1); e.Ks = e.Ke = Vec3(0); e.Ns = e.an = 0; e.Ni = 0; e.tex = -1; }
    const bool skip = opt.value("skip_specular_mat", false);
    for (int k = 0; k < 3; k++) {
        const auto g = gen_geom(c); const Vec3 wi = gen_side_dir(c, g, c.chance(.8), .05);
        if (opt.contains("base_material")) {
            const Vec3 wo = gen_side_dir(c, g, c.chance(.8), .05); auto* b = get<Material>(opt["base_material"]);
            const Vec3 x = m->eval(g, wi, wo, 0, Material::TransDir::LE, false), y = b->eval(g, wi, wo, 0, Material::TransDir::LE, false);
            c.check(near(x, y, 1e-12), "base-material", [&] { return what + " evaluates to " + S(x) + ", the base material to " + S(y); });
            continue;
        }
        const bool spec = e.illum == 5 || e.illum == 7;
        if (spec && !skip) {
            auto r = e.illum == 7 ? comp::create<Material>("material::glass", "", { {"Ni", e.Ni} }) : comp::create<Material>("material::mirror", "", Json::object());
            c.check(m->is_specular_component(0), "specular", [&] { return what + " with illum " + std::to_string(e.illum) + " is not specular"; });
            Material::ComponentSampleU cu{ Vec2(c.unit(), c.unit()) };
            const auto a = m->sample_component(cu, g, wi), b = r->sample_component(cu, g, wi);
            c.check(a.comp == b.comp && near(a.weight, b.weight, 1e-9), "specular-comp", [&] { return what + ": component selection differs from material with Ni=" + S(e.Ni); });
            const auto x = m->sample_direction({ Vec2(c.unit(), c.unit()), Vec2(c.unit(), c.unit()) }, g, wi, b.comp, Material::TransDir::EL), y = r->sample_direction({ Vec2(.5, .5), Vec2(.5, .5) }, g, wi, b.comp, Material::TransDir::EL);
            c.check(bool(x) == bool(y) && (!x || (near(x->wo, y->wo, 1e-9, 1e-12) && near(x->weight, y->weight, 1e-9))), "specular-dir", [&] { return what + ": direction " + (x ? S(x->wo) : "none") + " expected " + (y ? S(y->wo) : "none") + " Ni=" + S(e.Ni); });
            continue;
        }
        Vec3 Kd = spec ? Vec3(0) : e.Kd, Ks = spec ? Vec3(0) : e.Ks; double alpha = 1; bool mask = false;
        if (!spec && e.tex >= 0) { // the texture's value replaces the diffuse reflectance
            const auto& t = d.tex[e.tex]; for (int i = 0; i < 3; i++) Kd[i] = std::pow(t.px[i] / 255., 2.2);
            if (t.alpha && !skip) { mask = true; alpha = t.px[3] / 255.; }
        }
        const Vec3 wo = gen_side_dir(c, g, c.chance(.8), .05);
        auto rd = comp::create<Material>("material::diffuse", "", { {"Kd", J(Kd)} });
        Vec3 f = rd->eval(g, wi, wo, 0, Material::TransDir::EL, false);
        if (!spec) {
            const double r = 2 / (2 + e.Ns), as = std::sqrt(std::max(0., 1 - e.an * .9));
            auto rg = comp::create<Material>("material::glossy", "", { {"Ks", J(Ks)}, {"ax", std::max(1e-3, r / as)}, {"ay", std::max(1e-3, r * as)} });
            f += rg->eval(g, wi, wo, 0, Material::TransDir::EL, false);
        }
        f *= alpha;
        const Vec3 x = m->eval(g, wi, wo, 0, Material::TransDir::EL, false);
        c.check(near(x, f, 1e-5, 1e-7), "material", [&] { return what + " '" + e.name + "' evaluates to " + S(x) + ", its parameters describe " + S(f) + " (texture " + (e.tex >= 0 ? d.tex[e.tex].name : "none") + ")"; });
        c.check(near(m->reflectance(g), Kd, 1e-5, 1e-7), "reflectance", [&] { return what + " reflectance " + S(m->reflectance(g)) + " expected " + S(Kd); });
        if (!spec) {
            const double p1 = m->pdf_component(1, g, wi); c.check(near(p1, mask ? 1 - alpha : 0, 1e-5, 1e-7), "mask", [&] { return what + " lets light pass with probability " + S(p1) + " expected " + S(mask ? 1 - alpha : 0); });
        }
    }
}
void check_light(Ctx& c, Light* l, const Mesh* m, Vec3 Ke, const std::string& what) {
    c.check(bool(l) == (std::max({ Ke.x, Ke.y, Ke.z }) > 0), "light", [&] { return what + (l ? " got a light" : " got no light") + " with Ke " + S(Ke); });
    if (!l) return;
    double area = 0, mag = 0; m->foreach_triangle([&](int, const Mesh::Tri& t) { const Vec3 g = tri_cross(t.p1.p, t.p2.p, t.p3.p); area += std::sqrt(dot_(g, g)); for (auto& p : { t.p1.p, t.p2.p, t.p3.p }) for (int i = 0; i < 3; i++) mag = std::max(mag, std::fabs(p[i])); });
    if (!(area > 1e-6 * mag * mag)) return;
    for (int k = 0; k < 3; k++) {
        Light::PositionSampleU u{ Vec2(c.unit(), c.unit()), c.unit() };
        const auto s = l->sample_position(u, Transform(Mat4(1.0)));
        if (!s) continue;
        const Vec3 wo = s->geom.n;
        const Vec3 Le = l->eval(s->geom, wo, false);
        c.check(near(Le, Ke, 1e-9), "light-Ke", [&] { return what + " emits " + S(Le) + ", the file says " + S(Ke); });
        bool on = false;
        m->foreach_triangle([&](int, const Mesh::Tri& t) {
            const Vec3 a = t.p2.p - t.p1.p, b = t.p3.p - t.p1.p, q = s->geom.p - t.p1.p, g = cross_(a, b); const double gg = dot_(g, g); if (!(gg > 0)) return;
            const double bu = dot_(cross_(q, b), g) / gg, bv = dot_(cross_(a, q), g) / gg; const Vec3 r = q - a * bu - b * bv;
            if (bu > -1e-6 && bv > -1e-6 && bu + bv < 1 + 1e-6 && std::sqrt(dot_(r, r)) < 1e-6 * mag) on = true;
        });
        c.check(on, "light-mesh", [&] { return what + ": light samples " + S(s->geom.p) + " which is not on its mesh"; });
    }
}

void raw_mesh(Ctx& c) {
    const auto ms = gen_mesh(c, 12); Desc d; d.ps = ms.ps; d.ns = ms.ns; d.ts = ms.ts;
    auto* m = get<Mesh>(asset("m", "mesh::raw", ms.json()));
    std::vector<ETri> e; for (int f = 0; f < ms.num_tris(); f++) { ETri t; for (int k = 0; k < 3; k++) { auto& i = ms.fs[3 * f + k]; t.v[k] = { i.p, i.t, i.n }; } t.mat = 0; e.push_back(t); }
    c.note("inline mesh of ", e.size(), " triangles");
    const size_t n = check_mesh(c, m, d, e, std::vector<int>(e.size(), 0), 0, 0, false, "inline mesh");
    c.check(n == e.size(), "missing-triangles", [&] { return std::string("inline mesh has fewer triangles than given"); });
    c.label("raw"); c.nontrivial = true;
}
bool g_tiny = false;
void run(Ctx& c) {
    lm::reset();
    if (c.chance(.1)) { raw_mesh(c); return; }
    mkdir((c.scratch + "/sub").c_str(), 0700);
    const bool tiny = c.chance(.3);
    const Desc d = gen(c, tiny);
    // files may be named from the current directory, too (paths are relative to the process)
    { std::ofstream f(c.scratch + "/m.obj", std::ios::binary); f << d.obj; }
    for (size_t i = 0; i < d.mtl.size(); i++) { std::ofstream f(c.scratch + "/m" + std::to_string(i) + ".mtl", std::ios::binary); f << d.mtl[i]; }
    if (tiny && d.faces.empty()) throw pbt::Discard{};
    std::vector<ETri> e; std::vector<int> quad;
    for (auto& f : d.faces) for (size_t k = 1; k + 1 < f.v.size(); k++) { e.push_back(ETri{ { f.v[0], f.v[k], f.v[k + 1] }, f.mat }); quad.push_back(f.v.size() == 4 && k == 1); }
    Json opt = Json::object();
    if (c.chance(.15)) { asset("base", "material::diffuse", { {"Kd", J(gen_color(c))} }); opt["base_material"] = "$.assets.base"; }
    if (c.chance(.15)) opt["skip_specular_mat"] = c.coin();
    c.note(tiny ? "loader tinyobjloader" : "loader simple", " options ", opt.dump(), " files:\n", d.obj.substr(0, 1500)); for (auto& m : d.mtl) c.note("--- mtl\n", m.substr(0, 800));
    const double tol = tiny ? 1e-12 : 0;
    objloader::init(tiny ? "tinyobjloader" : "simple");
    Json prop = opt; prop["path"] = c.scratch + "/m.obj";
    // a single mesh
    {
        auto* m = get<Mesh>(asset("mesh", "mesh::wavefrontobj", { {"path", c.scratch + "/m.obj"} }));
        const size_t n = check_mesh(c, m, d, e, quad, 0, tol, tiny, "mesh");
        c.check(n == e.size(), "missing-triangles", [&] { return "mesh has " + std::to_string(n) + " triangles, the file " + std::to_string(e.size()); });
    }
    // a model
    auto* model = get<Model>(asset("model", "model::wavefrontobj", prop));
    size_t pos = 0; int prims = 0, groups = 0; std::vector<std::tuple<Component*, Component*, Component*>> list;
    model->create_primitives([&](Component* mesh, Component* mat, Component* light) { list.push_back({ mesh, mat, light }); });
    for (auto& [mc, matc, lc] : list) {
        auto* m = dynamic_cast<Mesh*>(mc); auto* mat = dynamic_cast<Material*>(matc); auto* l = dynamic_cast<Light*>(lc);
        const std::string what = "model part " + std::to_string(prims++);
        c.check(m && mat && bool(l) == bool(lc), "part-kind", [&] { return what + ": mesh, material or light is a component of another kind"; });
        if (m->num_triangles() == 0) continue;
        c.check(pos < e.size(), "extra-triangles", [&] { return what + ": more triangles than in the file"; });
        const int mi = e[pos].mat;
        const size_t n = check_mesh(c, m, d, e, quad, pos, tol, tiny, what);
        for (size_t i = 0; i < n; i++) c.check(e[pos + i].mat == mi, "grouping", [&] { return what + " joins faces of materials " + std::to_string(mi) + " and " + std::to_string(e[pos + i].mat); });
        pos += n; groups++;
        check_material(c, mat, d, mi, opt, what);
        check_light(c, l, m, mi < 0 ? Vec3(0) : d.mats[mi].Ke, what);
        // parts are reachable by their locators
        for (Component* p : { mc, matc, lc }) if (p) { Component* q = nullptr; try { q = comp::get<Component>(p->loc()); } catch (const std::exception&) {} c.check(q == p, "locator", [&] { return what + ": '" + p->loc() + "' does not resolve to the part"; }); }
    }
    c.check(pos == e.size(), "missing-triangles", [&] { return "model has " + std::to_string(pos) + " triangles, the file " + std::to_string(e.size()); });
    // a scene made of the model has exactly its parts
    auto* scene = get<Scene>(asset("scene", "scene::default", Json::object()));
    scene->add_primitive({ {"model", "$.assets.model"} }); size_t k = 0;
    scene->traverse_primitive_nodes([&](const SceneNode& node, Mat4) {
        if (node.type != SceneNodeType::Primitive) return;
        const bool ok = k < list.size() && node.primitive.mesh == dynamic_cast<Mesh*>(std::get<0>(list[k])) && node.primitive.material == dynamic_cast<Material*>(std::get<1>(list[k])) && node.primitive.light == dynamic_cast<Light*>(std::get<2>(list[k]));
        c.check(ok, "scene-parts", [&] { return "scene primitive " + std::to_string(k) + " is not the model's part"; }); k++;
    });
    c.check(k == list.size(), "scene-parts", [&] { return std::string("number of primitives of the scene differs from the model's parts"); });
    c.label(tiny ? "tinyobjloader" : "simple"); if (d.mats.empty()) c.label("no-mtl"); if (!d.tex.empty()) c.label("textured"); if (groups > 1) c.label("several-parts");
    if (e.size() > 1 && (d.mats.size() > 1 || d.mats.empty())) c.nontrivial = true;
}
void winit() { init_lm(); comp::load_plugin(std::string(getenv("VERIF_LIB_DIR")) + "/objloader_tinyobjloader"); quiet(); }
}
int main(int argc, char** argv) {
    pbt::Prop p; p.id = "P11";
    p.rule = "case = one printed OBJ file (positive/negative indices, all attribute forms, polygons of 3-10 vertices, vertices of a face with different attributes, comments, groups, CRLF/tabs, interleaved vertices) with 0-4 materials in up to two MTL files and generated textures, loaded by either loader as one mesh and as a model; every triangle compared in all mesh queries, every part's material and light compared with components made from the file's parameters; or an inline mesh. Non-trivial: at least two triangles and either no or at least two materials, or an inline mesh.";
    p.assumptions = { "files of the supported subset: names without blanks, a material is selected before the first face when a material library is used", "tinyobjloader may split a quad along either diagonal and is given triangles and quads only" };
    p.run = run; p.worker_init = winit; p.quick_cases = 250000; p.thorough_cases = 3000000; p.quick_s = 20; p.thorough_s = 300;
    return pbt::main(argc, argv, p);
}
