// Python module with the native side of the boundary checks (P26): converters to and from plain numbers, and calls
// of the virtual functions of components as the engine makes them.
#include <pch_pylm.h>
#include <lm/lm.h>
#include <lm/pylm.h>
#include <lm/progress.h>
namespace py = pybind11;
using namespace lm;
using L = std::vector<double>;

template <int N, class T> static L lst(const glm::vec<N, T, glm::defaultp>& v) { L r; for (int i = 0; i < N; i++) r.push_back(double(v[i])); return r; }
template <int N, class T> static glm::vec<N, T, glm::defaultp> vec(const L& a) { glm::vec<N, T, glm::defaultp> v; for (int i = 0; i < N; i++) v[i] = T(a.at(i)); return v; }
static Vec3 v3(const L& a) { return vec<3, Float>(a); }
static Vec2 v2(const L& a) { return vec<2, Float>(a); }
// rows of the matrix as written on paper
template <int N, class T> static L mlst(const glm::mat<N, N, T, glm::defaultp>& m) { L r; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) r.push_back(double(m[j][i])); return r; }
template <int N, class T> static glm::mat<N, N, T, glm::defaultp> mat(const L& a) { glm::mat<N, N, T, glm::defaultp> m; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) m[j][i] = T(a.at(i * N + j)); return m; }
static PointGeometry geom(const L& a) {
    PointGeometry g; g.p = v3(L(a.begin(), a.begin() + 3)); g.n = v3(L(a.begin() + 3, a.begin() + 6)); g.gn = v3(L(a.begin() + 6, a.begin() + 9)); g.wo = v3(L(a.begin() + 9, a.begin() + 12));
    g.t = v2(L(a.begin() + 12, a.begin() + 14)); g.u = v3(L(a.begin() + 14, a.begin() + 17)); g.v = v3(L(a.begin() + 17, a.begin() + 20)); g.degenerated = a[20] != 0; g.infinite = a[21] != 0; return g;
}
static L glist(const PointGeometry& g) { L r; for (auto& x : { lst(g.p), lst(g.n), lst(g.gn), lst(g.wo), lst(g.t), lst(g.u), lst(g.v) }) r.insert(r.end(), x.begin(), x.end()); r.push_back(g.degenerated); r.push_back(g.infinite); return r; }
static Ray ray(const L& a) { return { v3(L(a.begin(), a.begin() + 3)), v3(L(a.begin() + 3, a.begin() + 6)) }; }
static L rlist(const Ray& r) { L a = lst(r.o), b = lst(r.d); a.insert(a.end(), b.begin(), b.end()); return a; }

template <int N, class T> static void def_vec(py::module& m, const std::string& n) {
    using V = glm::vec<N, T, glm::defaultp>;
    m.def((n + "_list").c_str(), [](V v) { return lst(v); });
    m.def((n + "_make").c_str(), [](const L& a) { return vec<N, T>(a); });
    m.def((n + "_echo").c_str(), [](V v) { return v; });
}
template <int N, class T> static void def_mat(py::module& m, const std::string& n) {
    using M = glm::mat<N, N, T, glm::defaultp>;
    m.def((n + "_list").c_str(), [](M v) { return mlst(v); });
    m.def((n + "_make").c_str(), [](const L& a) { return mat<N, T>(a); });
    m.def((n + "_echo").c_str(), [](M v) { return v; });
}

PYBIND11_MODULE(vpy, m) {
    // json
    m.def("json_dump", [](const Json& j) { return py::bytes(j.dump()); });
    m.def("json_type", [](const Json& j) { return int(j.type()); });
    m.def("json_echo", [](const Json& j) { return j; });
    m.def("json_parse", [](const std::string& s) { return Json::parse(s); });
    m.def("json_bits", [](const Json& j) { return py::bytes(std::string((const char*)j.get_ptr<const double*>(), 8)); });
    m.def("json_str", [](const Json& j) { return py::bytes(j.get<std::string>()); });
    // linear algebra
    def_vec<2, double>(m, "v2d"); def_vec<3, double>(m, "v3d"); def_vec<4, double>(m, "v4d");
    def_vec<2, float>(m, "v2f"); def_vec<3, float>(m, "v3f"); def_vec<4, float>(m, "v4f"); def_vec<3, int>(m, "v3i");
    def_mat<3, double>(m, "m3d"); def_mat<4, double>(m, "m4d"); def_mat<3, float>(m, "m3f"); def_mat<4, float>(m, "m4f");
    m.def("geom_make", [](const L& a) { return geom(a); }); m.def("geom_list", [](const PointGeometry& g) { return glist(g); });
    m.def("geom_opposite", [](const L& g, const L& a, const L& b) { return geom(g).opposite(v3(a), v3(b)); });
    m.def("geom_basis", [](const L& g, const L& a) { const auto [n, u, v] = geom(g).orthonormal_basis_twosided(v3(a)); L r; for (auto& x : { lst(n), lst(u), lst(v) }) r.insert(r.end(), x.begin(), x.end()); return r; });
    m.def("geometry_term", [](const L& g, const L& h) { return surface::geometry_term(geom(g), geom(h)); });
    m.def("refraction", [](const L& a, const L& b, double e) { const auto r = math::refraction(v3(a), v3(b), e); return std::make_pair(r.total, r.total ? L() : lst(r.wt)); });
    m.def("sample_cosine_weighted", [](const L& a) { return lst(math::sample_cosine_weighted(v2(a))); });
    m.def("enums", [] { using T = SceneInteraction; using LV = lm::log::LogLevel; return std::map<std::string, int>{
        {"SceneInteractionType.None", T::None}, {"SceneInteractionType.CameraEndpoint", T::CameraEndpoint}, {"SceneInteractionType.LightEndpoint", T::LightEndpoint}, {"SceneInteractionType.SurfaceInteraction", T::SurfaceInteraction}, {"SceneInteractionType.MediumInteraction", T::MediumInteraction}, {"SceneInteractionType.Endpoint", T::Endpoint}, {"SceneInteractionType.Midpoint", T::Midpoint},
        {"SceneNodeType.Primitive", int(SceneNodeType::Primitive)}, {"SceneNodeType.Group", int(SceneNodeType::Group)}, {"progress.ProgressMode.Samples", int(progress::ProgressMode::Samples)}, {"progress.ProgressMode.Time", int(progress::ProgressMode::Time)},
        {"log.LogLevel.Debug", int(LV::Debug)}, {"log.LogLevel.Info", int(LV::Info)}, {"log.LogLevel.Warn", int(LV::Warn)}, {"log.LogLevel.Err", int(LV::Err)}, {"log.LogLevel.Progress", int(LV::Progress)}, {"log.LogLevel.ProgressEnd", int(LV::ProgressEnd)} }; });
    m.def("constants", [] { return std::map<std::string, double>{ {"Inf", double(Inf)}, {"Eps", double(Eps)}, {"Pi", double(Pi)} }; });
    m.def("rng", [](int seed, int n) { Rng r(seed); L o; for (int i = 0; i < n; i++) o.push_back(r.u()); return o; });
    m.def("registered", [] { std::vector<std::string> o; comp::foreach_registered([&](const std::string& s) { o.push_back(s); }); return o; });
    m.def("scene_visible", [](Scene* s, const SceneInteraction& a, const SceneInteraction& b) { return s->visible(a, b); });
    m.def("scene_require", [](Scene* s, const std::string& w) { return w == "primitive" ? s->require_primitive() : w == "camera" ? s->require_camera() : w == "light" ? s->require_light() : w == "accel" ? s->require_accel() : s->require_renderable(); });
    m.def("model_nodes", [](Model* m) { std::vector<std::vector<unsigned long long>> o; m->foreach_node([&](const SceneNode& n) { o.push_back({ (unsigned long long)n.index, (unsigned long long)n.type, (unsigned long long)(void*)(Component*)n.primitive.mesh, (unsigned long long)(void*)(Component*)n.primitive.material, (unsigned long long)(void*)(Component*)n.primitive.light }); }); return o; });
    m.def("model_primitives", [](Model* m) { std::vector<std::vector<unsigned long long>> o; m->create_primitives([&](Component* a, Component* b, Component* c) { o.push_back({ (unsigned long long)(void*)a, (unsigned long long)(void*)b, (unsigned long long)(void*)c }); }); return o; });
    m.def("ray_make", [](const L& a) { return ray(a); }); m.def("ray_list", [](const Ray& r) { return rlist(r); });
    m.def("film_fill", [](Film* f, const L& a) { const auto [w, h] = f->size(); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) f->set_pixel(x, y, v3(L(a.begin() + 3 * (y * w + x), a.begin() + 3 * (y * w + x) + 3))); });
    m.def("film_list", [](Film* f) { const auto b = f->buffer(); return L(b.data, b.data + 3 * b.w * b.h); });
    // components: identity
    m.def("addr", [](Component* p) { return (unsigned long long)(void*)p; });
    m.def("addr_of", [](const std::string& loc) { return (unsigned long long)(void*)comp::get<Component>(loc); });
    m.def("loc_of_addr", [](unsigned long long a) { return reinterpret_cast<Component*>(a)->loc(); });
    m.def("save", [](Component* p) { std::ostringstream os; { OutputArchive ar(os); p->save(ar); } return py::bytes(os.str()); });
    m.def("load", [](Component* p, py::bytes b) { std::istringstream is((std::string)b); InputArchive ar(is); p->load(ar); });
    // virtual functions
    m.def("texture_eval", [](Texture* t, const L& a) { return lst(t->eval(v2(a))); });
    m.def("texture_eval_by_pixel_coords", [](Texture* t, int x, int y) { return lst(t->eval_by_pixel_coords(x, y)); });
    m.def("texture_size", [](Texture* t) { const auto s = t->size(); return std::make_pair(s.w, s.h); });
    m.def("volume_has_scalar", [](Volume* v) { return v->has_scalar(); });
    m.def("volume_max_scalar", [](Volume* v) { return v->max_scalar(); });
    m.def("volume_eval_scalar", [](Volume* v, const L& a) { return v->eval_scalar(v3(a)); });
    m.def("volume_has_color", [](Volume* v) { return v->has_color(); });
    m.def("volume_eval_color", [](Volume* v, const L& a) { return lst(v->eval_color(v3(a))); });
    m.def("medium_eval_transmittance", [](Medium* p, int seed, const L& r, double a, double b) { Rng rng(seed); const auto t = lst(p->eval_transmittance(rng, ray(r), a, b)); return std::make_pair(t, rng.u()); });
    m.def("medium_sample_distance", [](Medium* p, int seed, const L& r, double a, double b) { Rng rng(seed); const auto s = p->sample_distance(rng, ray(r), a, b); L o; if (s) { o = lst(s->p); const auto w = lst(s->weight); o.insert(o.end(), w.begin(), w.end()); o.push_back(s->medium); } return std::make_pair(o, rng.u()); });
    m.def("medium_is_emitter", [](Medium* p) { return p->is_emitter(); });
    m.def("medium_phase", [](Medium* p) { return (unsigned long long)(void*)dynamic_cast<const Component*>(p->phase()); });
    m.def("phase_pdf_direction", [](Phase* p, const L& g, const L& a, const L& b) { return p->pdf_direction(geom(g), v3(a), v3(b)); });
    m.def("phase_eval", [](Phase* p, const L& g, const L& a, const L& b) { return lst(p->eval(geom(g), v3(a), v3(b))); });
    m.def("camera_set_aspect_ratio", [](Camera* p, double a) { p->set_aspect_ratio(a); });
    m.def("camera_view_matrix", [](Camera* p) { return mlst(p->view_matrix()); });
    m.def("camera_projection_matrix", [](Camera* p) { return mlst(p->projection_matrix()); });
    m.def("camera_primary_ray", [](Camera* p, const L& a) { return rlist(p->primary_ray(v2(a))); });
    m.def("camera_pdf_ray", [](Camera* p, const L& g, const L& a) { return p->pdf_ray(geom(g), v3(a)); });
    m.def("camera_pdf_direction", [](Camera* p, const L& g, const L& a) { return p->pdf_direction(geom(g), v3(a)); });
    m.def("camera_pdf_position", [](Camera* p, const L& g) { return p->pdf_position(geom(g)); });
    m.def("camera_pdf_direct", [](Camera* p, const L& g, const L& h, const L& a) { return p->pdf_direct(geom(g), geom(h), v3(a)); });
    m.def("camera_raster_position", [](Camera* p, const L& a) -> std::optional<L> { const auto r = p->raster_position(v3(a)); if (!r) return {}; return lst(*r); });
    m.def("camera_is_connectable", [](Camera* p, const L& g) { return p->is_connectable(geom(g)); });
    m.def("camera_eval", [](Camera* p, const L& a) { return lst(p->eval(v3(a))); });
    m.def("light_pdf_direction", [](Light* p, const L& g, const L& a) { return p->pdf_direction(geom(g), v3(a)); });
    m.def("light_is_specular", [](Light* p) { return p->is_specular(); });
    m.def("light_is_infinite", [](Light* p) { return p->is_infinite(); });
    m.def("light_is_connectable", [](Light* p, const L& g) { return p->is_connectable(geom(g)); });
    m.def("light_eval", [](Light* p, const L& g, const L& a, bool d) { return lst(p->eval(geom(g), v3(a), d)); });
    m.def("material_is_specular_component", [](Material* p, int c) { return p->is_specular_component(c); });
    m.def("material_reflectance", [](Material* p, const L& g) { return lst(p->reflectance(geom(g))); });
    m.def("material_pdf_component", [](Material* p, int c, const L& g, const L& a) { return p->pdf_component(c, geom(g), v3(a)); });
    m.def("material_pdf_direction", [](Material* p, const L& g, const L& a, const L& b, int c, bool d) { return p->pdf_direction(geom(g), v3(a), v3(b), c, d); });
    const auto tri = [](const Mesh::Tri& t) { L r; for (auto* q : { &t.p1, &t.p2, &t.p3 }) { for (double x : lst(q->p)) r.push_back(x); for (double x : lst(q->n)) r.push_back(x); for (double x : lst(q->t)) r.push_back(x); } return r; };
    m.def("mesh_num_triangles", [](Mesh* p) { return p->num_triangles(); });
    m.def("mesh_triangle_at", [tri](Mesh* p, int f) { return tri(p->triangle_at(f)); });
    m.def("mesh_surface_point", [](Mesh* p, int f, const L& a) { const auto s = p->surface_point(f, v2(a)); L r; for (auto& x : { lst(s.p), lst(s.n), lst(s.gn), lst(s.t) }) r.insert(r.end(), x.begin(), x.end()); return r; });
    m.def("mesh_foreach_triangle", [tri](Mesh* p) { std::vector<std::pair<int, L>> o; p->foreach_triangle([&](int f, const Mesh::Tri& t) { o.push_back({ f, tri(t) }); }); return o; });
    m.def("film_num_pixels", [](Film* p) { return p->num_pixels(); });
    m.def("film_set_pixel", [](Film* p, int x, int y, const L& a) { p->set_pixel(x, y, v3(a)); });
    m.def("film_splat_pixel", [](Film* p, int x, int y, const L& a) { p->splat_pixel(x, y, v3(a)); });
    m.def("film_update_pixel", [](Film* p, int x, int y, double k) { p->update_pixel(x, y, [=](Vec3 v) { return v * k; }); });
    m.def("film_save", [](Film* p, const std::string& s) { return p->save(s); });
    m.def("film_rescale", [](Film* p, double a) { p->rescale(a); });
    m.def("film_clear", [](Film* p) { p->clear(); });
    m.def("film_accum", [](Film* p, Film* q) { p->accum(q); });
    m.def("film_size", [](Film* p) { const auto s = p->size(); return std::make_pair(s.w, s.h); });
    m.def("scene_int", [](Scene* s, const std::string& w) { return w == "root_node" ? s->root_node() : w == "num_nodes" ? s->num_nodes() : w == "num_lights" ? s->num_lights() : w == "camera_node" ? s->camera_node() : w == "medium_node" ? s->medium_node() : w == "env_light_node" ? s->env_light_node() : s->create_instance_group_node(); });
    m.def("scene_create_primitive_node", [](Scene* s, const std::string& j) { return s->create_primitive_node(Json::parse(j)); });
    m.def("scene_create_group_node", [](Scene* s, const L& a) { return s->create_group_node(mat<4, Float>(a)); });
    m.def("scene_add_child", [](Scene* s, int a, int b) { s->add_child(a, b); });
    m.def("scene_add_child_from_model", [](Scene* s, int a, const std::string& b) { s->add_child_from_model(a, b); });
    m.def("scene_create_group_from_model", [](Scene* s, const std::string& b) { return s->create_group_from_model(b); });
    m.def("scene_set_accel", [](Scene* s, const std::string& b) { s->set_accel(b); });
    m.def("scene_intersect", [](Scene* s, const L& r, double a, double b) -> std::optional<std::pair<std::pair<int, int>, L>> { const auto h = s->intersect(ray(r), a, b); if (!h) return {}; return std::make_pair(std::make_pair(h->type, h->primitive), glist(h->geom)); });
    m.def("scene_pdf_light_selection", [](Scene* s, int i) { return s->pdf_light_selection(i); });
    m.def("scene_light_index_at", [](Scene* s, int i) { return s->light_index_at(i); });
    m.def("scene_is_light", [](Scene* s, int prim, const L& g) { return s->is_light(SceneInteraction::make_surface_interaction(prim, geom(g))); });
    m.def("scene_is_camera", [](Scene* s, int prim, const L& g) { return s->is_camera(SceneInteraction::make_surface_interaction(prim, geom(g))); });
    m.def("accel_intersect", [](Accel* s, const L& r, double a, double b) -> std::optional<L> { const auto h = s->intersect(ray(r), a, b); if (!h) return {}; L o = { h->t, h->uv.x, h->uv.y, double(h->primitive), double(h->face) }; for (double x : mlst(h->global_transform.M)) o.push_back(x); return o; });
    m.def("renderer_render", [](Renderer* r) { Json j; { py::gil_scoped_release g; j = r->render(); } return py::bytes(j.dump()); });
    m.def("renderer_render_thread", [](Renderer* r) { Json j; { py::gil_scoped_release g; std::thread([&] { j = r->render(); }).join(); } return py::bytes(j.dump()); });
    m.def("group_load_asset", [](AssetGroup* g, const std::string& n, const std::string& k, const std::string& j) { return (unsigned long long)(void*)g->load_asset(n, k, Json::parse(j)); });
    m.def("group_load_serialized", [](AssetGroup* g, const std::string& n, const std::string& k) { return (unsigned long long)(void*)g->load_serialized(n, k); });
    m.def("construct", [](Component* p, const std::string& j) { p->construct(Json::parse(j)); });
    m.def("create", [](const std::string& key, const std::string& loc, const std::string& j) { auto p = comp::create<Component>(key, loc, Json::parse(j)); return bool(p); });
    m.def("create_throws", [](const std::string& key) { try { auto p = comp::create<Component>(key, "$.x", Json::object()); } catch (py::error_already_set& e) { return std::string("python: ") + std::string(py::str(e.type().attr("__name__"))); } catch (std::exception& e) { return std::string(e.what()); } return std::string("none"); });
    m.def("log", [](int lv, int sev, const std::string& f, int line, const std::string& msg) { lm::log::log(lm::log::LogLevel(lv), sev, f.c_str(), line, msg.c_str()); });
    m.def("log_thread", [](int lv, int sev, const std::string& f, int line, const std::string& msg) { py::gil_scoped_release g; std::thread([&] { lm::log::log(lm::log::LogLevel(lv), sev, f.c_str(), line, msg.c_str()); }).join(); });
    m.def("log_indent", [](int n) { lm::log::update_indentation(n); });
    m.def("log_severity", [](int n) { lm::log::set_severity(n); });
    m.def("progress", [](int mode, long long total, double t, const std::vector<long long>& ps, const L& ts) { progress::start(progress::ProgressMode(mode), total, t); for (auto p : ps) progress::update(p); for (auto x : ts) progress::update_time(x); progress::end(); });
    m.def("poll", [](const std::string& j) { debug::poll(Json::parse(j)); });
    m.def("poll_thread", [](const std::string& j) { py::gil_scoped_release g; const auto v = Json::parse(j); std::thread([&] { debug::poll(v); }).join(); });
}
