// P21: conversions between JSON parameters and native values.
#include "lmgen.h"
#include <lm/json.h>
#include <lm/texture.h>
#include <lm/mesh.h>
using namespace lmgen;

namespace {
double gen_num(Ctx& c) {
    switch (c.weighted({ 5, 2, 2, 1, 1, 1 })) {
        case 1: return c.in(-1000, 1000);
        case 2: return (c.coin() ? 1 : -1) * c.logreal(1e-300, 1e300);
        case 3: return 0.0;
        case 4: return 1.0 / c.in(1, 99);
        case 5: return (c.coin() ? 1 : -1) * 9007199254740993.0 * c.in(1, 9);
        default: return c.real(-10, 10);
    }
}
// A value of a JSON kind; 0 null 1 bool 2 number 3 string 4 array 5 object
Json gen_kind(Ctx& c, int kind) {
    switch (kind) {
        case 0: return nullptr; case 1: return c.coin(); case 2: return c.coin() ? Json(gen_num(c)) : Json(c.in(-50, 50));
        case 3: { std::string s; const int n = c.in(0, 6); for (int i = 0; i < n; i++) s += char('0' + c.raw(40)); return s; }
        case 4: { Json a = Json::array(); const int n = c.in(0, 18); for (int i = 0; i < n; i++) a.push_back(c.chance(.9) ? gen_kind(c, 2) : gen_kind(c, c.in(0, 3))); return a; }
        default: { Json o = Json::object(); const int n = c.in(0, 3); for (int i = 0; i < n; i++) o["k" + std::to_string(i)] = gen_num(c); return o; }
    }
}
template <class F> bool throws(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }
template <class V, int N> void vec(Ctx& c, const char* name) {
    V v; for (int i = 0; i < N; i++) v[i] = gen_num(c);
    const Json j = v; c.note(name, " ", j.dump(), "\n");
    c.check(j.is_array() && j.size() == N, "vec-to", [&] { return std::string(name) + " becomes " + j.dump(); });
    for (int i = 0; i < N; i++) c.check(j[i].is_number() && j[i].template get<double>() == v[i], "vec-to", [&] { return std::string(name) + " component " + std::to_string(i) + " becomes " + j[i].dump() + " from " + S(v[i]); });
    const V b = j; c.check(b == v, "vec-roundtrip", [&] { return std::string(name) + " changed on a round trip: " + j.dump(); });
    const V t = Json::parse(j.dump()); c.check(t == v, "vec-text", [&] { return std::string(name) + " changed on a round trip through text: " + j.dump(); });
    const Json p = { {"x", j}, {"y", 1} };
    c.check(lm::json::value<V>(p, "x") == v && lm::json::value<V>(p, "x", V(7)) == v && lm::json::value<V>(p, "z", V(7)) == V(7) && *lm::json::value_or_none<V>(p, "x") == v && !lm::json::value_or_none<V>(p, "z"), "vec-value", [&] { return std::string(name) + " parameter lookup of " + p.dump(); });
    c.check(throws([&] { lm::json::value<V>(p, "z"); }), "missing", [&] { return std::string("missing parameter did not raise an error"); });
    // wrong kinds and lengths
    const Json w = gen_kind(c, c.weighted({ 1, 1, 1, 1, 6, 1 })); bool good = w.is_array() && w.size() == N; if (good) for (auto& e : w) good = good && e.is_number();
    const Json q = { {"x", w} };
    c.check(throws([&] { const V r = w; (void)r; }) == !good, "vec-malformed", [&] { return std::string(name) + (good ? " rejected " : " accepted ") + w.dump(); });
    c.check(throws([&] { lm::json::value<V>(q, "x"); }) == !good && throws([&] { lm::json::value<V>(q, "x", V(3)); }) == !good && throws([&] { lm::json::value_or_none<V>(q, "x"); }) == !good, "vec-malformed-value", [&] { return std::string(name) + " parameter lookup " + (good ? "rejected " : "accepted ") + q.dump(); });
    c.label(name);
}
template <class M, int C, int R> void mat(Ctx& c, const char* name) {
    M m; for (int i = 0; i < C; i++) for (int k = 0; k < R; k++) m[i][k] = gen_num(c);
    const Json j = m; c.note(name, " ", j.dump(), "\n");
    c.check(j.is_array() && j.size() == C * R, "mat-to", [&] { return std::string(name) + " becomes " + j.dump(); });
    for (int i = 0; i < C; i++) for (int k = 0; k < R; k++) c.check(j[i * R + k].template get<double>() == m[i][k], "mat-layout", [&] { return std::string(name) + " is not stored column by column: " + j.dump(); });
    const M b = j, t = Json::parse(j.dump()); c.check(b == m && t == m, "mat-roundtrip", [&] { return std::string(name) + " changed on a round trip: " + j.dump(); });
    const Json p = { {"x", j} }; c.check(lm::json::value<M>(p, "x") == m && lm::json::value<M>(p, "z", M(2)) == M(2) && *lm::json::value_or_none<M>(p, "x") == m, "mat-value", [&] { return std::string(name) + " parameter lookup"; });
    Json w = gen_kind(c, c.weighted({ 1, 1, 1, 1, 6, 1 })); if (c.coin()) { w = j; if (c.coin()) w.push_back(0); else if (c.coin()) w.erase(w.size() - 1); else w[c.in(0, C * R - 1)] = gen_kind(c, c.pick(std::vector<int>{ 0, 3, 4, 5 })); }
    bool good = w.is_array() && w.size() == C * R; if (good) for (auto& e : w) good = good && e.is_number();
    c.check(throws([&] { const M r = w; (void)r; }) == !good, "mat-malformed", [&] { return std::string(name) + (good ? " rejected " : " accepted ") + w.dump(); });
    c.label(name);
}
void scalars(Ctx& c) {
    const double d = gen_num(c); const int i = c.in(-2000000000, 2000000000); const long long l = (long long)(c.seed64()) - (1LL << 52); const bool b = c.coin(); std::string s; const int n = c.in(0, 12); for (int k = 0; k < n; k++) s += char(32 + c.raw(94)); std::vector<std::string> vs; for (int k = 0; k < c.in(0, 3); k++) vs.push_back(s + std::to_string(k));
    Json p = { {"d", d}, {"i", i}, {"l", l}, {"b", b}, {"s", s}, {"vs", vs}, {"n", nullptr} }; if (c.coin()) p = Json::parse(p.dump()); c.note(p.dump());
    using namespace lm::json;
    const bool ok = value<Float>(p, "d") == d && value<int>(p, "i") == i && value<long long>(p, "l") == l && value<bool>(p, "b") == b && value<std::string>(p, "s") == s && value<std::vector<std::string>>(p, "vs") == vs && value<Float>(p, "i") == double(i)
        && value<int>(p, "q", 5) == 5 && value<Float>(p, "d", 2.0) == d && value<bool>(p, "b", !b) == b && value<std::string>(p, "s", std::string("zz")) == s && value<std::string>(p, "q", std::string("zz")) == "zz" && *value_or_none<int>(p, "i") == i && !value_or_none<int>(p, "q") && !value_or_none<std::string>(p, "q");
    c.check(ok, "scalar", [&] { return "parameter lookup in " + p.dump(); });
    // wrong kinds
    struct T { const char* k; const char* as; bool (*f)(const Json&, const char*); };
    static const T ts[] = {
        { "s", "float", [](const Json& p, const char* k) { return throws([&] { value<Float>(p, k); }); } }, { "vs", "float", [](const Json& p, const char* k) { return throws([&] { value<Float>(p, k); }); } }, { "b", "float", [](const Json& p, const char* k) { return throws([&] { value<Float>(p, k); }); } },
        { "s", "int", [](const Json& p, const char* k) { return throws([&] { value<int>(p, k); }); } }, { "n", "int", [](const Json& p, const char* k) { return throws([&] { value<int>(p, k); }); } }, { "n", "int with default", [](const Json& p, const char* k) { return throws([&] { value<int>(p, k, 3); }); } },
        { "d", "string", [](const Json& p, const char* k) { return throws([&] { value<std::string>(p, k); }); } }, { "b", "string", [](const Json& p, const char* k) { return throws([&] { value<std::string>(p, k); }); } }, { "i", "bool", [](const Json& p, const char* k) { return throws([&] { value<bool>(p, k); }); } },
        { "s", "bool", [](const Json& p, const char* k) { return throws([&] { value<bool>(p, k); }); } }, { "s", "string list", [](const Json& p, const char* k) { return throws([&] { value<std::vector<std::string>>(p, k); }); } }, { "q", "missing", [](const Json& p, const char* k) { return throws([&] { value<int>(p, k); }); } }, { "n", "optional", [](const Json& p, const char* k) { return throws([&] { value_or_none<Float>(p, k); }); } } };
    for (auto& t : ts) c.check(t.f(p, t.k), "scalar-wrong-kind", [&] { return std::string("value of '") + t.k + "' read as " + t.as + " from " + p.dump(); });
    int dummy[2]; int* q = c.coin() ? &dummy[0] : nullptr; const Json jp = q; c.check(jp.get<int*>() == q, "pointer", [&] { return "pointer round trip " + jp.dump(); });
    c.label("scalars");
}
void merge(Ctx& c) {
    Json a = Json::object(), b = Json::object(); for (int k = 0; k < 6; k++) { if (c.coin()) a["k" + std::to_string(k)] = gen_kind(c, c.in(0, 5)); if (c.coin()) b["k" + std::to_string(k)] = gen_kind(c, c.in(0, 5)); }
    c.note("merge ", a.dump(), " ", b.dump()); const Json m = lm::json::merge(a, b); Json e = b; for (auto& x : a.items()) e[x.key()] = x.value();
    c.check(m == e, "merge", [&] { return "merge of " + a.dump() + " and " + b.dump() + " is " + m.dump(); });
    // positional arguments
    const int n = c.in(0, 4); std::vector<std::string> st = { "prog" }; const double d = gen_num(c); char nb[40]; snprintf(nb, 40, "%.17g", d); const std::string path = "dir/" + std::to_string(c.in(0, 999)); const int w = c.in(-999, 999);
    st.push_back(path); st.push_back(std::to_string(w)); st.push_back(nb); st.resize(n + 1); std::vector<char*> av; for (auto& s : st) av.push_back(&s[0]); av.push_back(nullptr);
    bool ok = false, thrown = false; try { const Json j = lm::json::parse_positional_args<3>(n + 1, av.data(), "{{\"path\": \"{}\", \"w\": {}, \"x\": [{}, 1]}}"); ok = j["path"] == path && j["w"].get<int>() == w && j["x"][0].get<double>() == d && j["x"][1] == 1; } catch (const std::exception&) { thrown = true; }
    if (n == 3) c.check(ok, "args", [&] { return "positional arguments " + path + " " + std::to_string(w) + " " + nb + " were not parsed"; });
    if (n < 3) c.check(thrown, "args-missing", [&] { return std::to_string(n) + " positional arguments for a template with 3 did not raise an error"; });
    c.label("merge");
}
void refs(Ctx& c) {
    lm::reset(); asset("tex", "texture::constant", { {"color", J(Vec3(1))} }); asset("mesh", "mesh::raw", gen_mesh(c, 3).json());
    const std::vector<std::string> loc = { "$.assets.tex", "$.assets.mesh", "$.assets.none", "$.assets", "$.assets.tex.x", "tex", "", "$", "$.", ".assets.tex", "$.assets.te", "$.assets.texx" };
    const int k = c.in(0, int(loc.size()) + 2); Json p = Json::object(); if (k < int(loc.size())) p["ref"] = loc[k]; else if (k == int(loc.size())) p["ref"] = 3; else if (k == int(loc.size()) + 1) p["ref"] = nullptr;
    c.note("reference ", p.dump());
    Texture* t = nullptr; bool th = throws([&] { t = lm::json::comp_ref<Texture>(p, "ref"); }); Texture* u = nullptr; bool th2 = throws([&] { u = lm::json::comp_ref_or_nullptr<Texture>(p, "ref"); });
    auto* want = lm::comp::get<Texture>("$.assets.tex");
    if (k == 0) c.check(!th && t == want && u == want, "ref", [&] { return std::string("valid reference was not resolved"); });
    else { c.check(th, "ref-invalid", [&] { return "reference " + p.dump() + " to something that is not a texture did not raise an error"; }); c.check(th2 || !u, "ref-null", [&] { return "reference " + p.dump() + " gave a texture"; }); }
    c.label("refs");
}
void run(Ctx& c) {
    switch (c.in(0, 8)) {
        case 0: vec<Vec2, 2>(c, "vec2"); break; case 1: vec<Vec3, 3>(c, "vec3"); break; case 2: vec<Vec4, 4>(c, "vec4"); break;
        case 3: mat<Mat3, 3, 3>(c, "mat3"); break; case 4: mat<Mat4, 4, 4>(c, "mat4"); break; case 5: mat<glm::mat<3, 4, Float>, 3, 4>(c, "mat3x4"); break;
        case 6: scalars(c); break; case 7: merge(c); break; default: refs(c);
    }
    c.nontrivial = true;
}
}
int main(int argc, char** argv) {
    pbt::Prop p; p.id = "P21";
    p.rule = "case = one generated native value (vector, matrix, scalars, strings, lists, pointer, reference) converted to a parameter and back, also through JSON text, plus a generated value of another kind or length that has to be rejected; or two merged parameter objects and positional arguments. Non-trivial: every case.";
    p.assumptions = { "finite numbers; integers inside the native range", "numeric narrowing between number kinds (2.7 read as int) is the JSON library's and is not judged" };
    p.run = run; p.worker_init = init_lm; p.quick_cases = 600000; p.thorough_cases = 20000000; p.quick_s = 20; p.thorough_s = 240;
    return pbt::main(argc, argv, p);
}
