// P27: sessions and services (log, parallel loops, progress, model loader) started, replaced, ended and reset in any order.
#include "lmgen.h"
#include <lm/logger.h>
#include <lm/loggercontext.h>
#include <lm/parallelcontext.h>
#include <lm/progress.h>
#include <lm/progresscontext.h>
#include <lm/objloader.h>
#include <lm/debug.h>
#include <iostream>
#include <memory>
using namespace lmgen;
using lm::log::LogLevel;

namespace {
struct Ev { int id; std::string what; };
std::vector<Ev> g_ev; int g_live[5] = { 0, 0, 0, 0, 0 }, g_next_id = 1, g_last[4] = { 0, 0, 0, 0 }; bool g_throw = false;
// Base of the services made by the harness: an instance number, the configuration, and a count of live instances
template <class B, int K> struct Svc : B {
    int id = g_next_id++, tag = -1; Svc() { g_live[K]++; } ~Svc() { g_live[K]--; tag = -2; }
    virtual void construct(const Json& p) override { if (g_throw) LM_THROW_EXCEPTION(Error::InvalidArgument, "refused"); tag = lm::json::value<int>(p, "tag", 0); g_last[K] = id; }
    void ev(const std::string& s) const { g_ev.push_back({ id, s }); }
};
struct Log final : Svc<lm::log::LoggerContext, 0> {
    int ind = 0, sev = 0; std::vector<std::pair<int, std::string>> lines;
    void log(LogLevel l, int s, const char* f, int line, const char* m) override { lines.push_back({ ind, m }); ev("log " + std::to_string(int(l)) + " " + std::to_string(s) + " " + f + " " + std::to_string(line) + " " + m); }
    void update_indentation(int n) override { ind += n; ev("indent " + std::to_string(n)); }
    void set_severity(int s) override { sev = s; ev("severity " + std::to_string(s)); }
};
struct Par final : Svc<lm::parallel::ParallelContext, 1> {
    int num_threads() const override { ev("threads"); return tag + 100; }
    bool main_thread() const override { ev("main"); return tag % 2 == 0; }
    void foreach(long long n, const lm::parallel::ParallelProcessFunc& f, const lm::parallel::ProgressUpdateFunc& p) const override { ev("foreach " + std::to_string(n)); for (long long i = 0; i < n; i++) f(i, 0); p(n); }
};
struct Prog final : Svc<lm::progress::ProgressContext, 2> {
    void start(lm::progress::ProgressMode m, long long n, double t) override { ev("start " + std::to_string(int(m)) + " " + std::to_string(n) + " " + S(t)); }
    void update(long long n) override { ev("update " + std::to_string(n)); }
    void update_time(Float t) override { ev("time " + S(t)); }
    void end() override { ev("end"); }
};
struct Obj final : Svc<lm::objloader::OBJLoaderContext, 3> {
    bool load(const std::string& path, lm::objloader::OBJSurfaceGeometry& geo, const lm::objloader::ProcessMeshFunc& pm, const lm::objloader::ProcessMaterialFunc&) override {
        ev("load " + path); for (int i = 0; i < 3; i++) geo.ps.push_back(Vec3(i, i * i, tag)); lm::objloader::OBJMeshFace fs; for (int k = 0; k <= tag; k++) for (int i = 0; i < 3; i++) fs.push_back({ i, -1, -1 }); return pm(fs, {}); }
};
// A component with owned children and references
struct Node final : lm::Component {
    std::vector<std::pair<std::string, Ptr<Component>>> kids; std::vector<Component*> refs; Node() { g_live[4]++; } ~Node() { g_live[4]--; }
    void construct(const Json& p) override {
        if (p.contains("kids")) for (auto& k : p["kids"]) { auto n = lm::comp::create<Component>("p27::node", make_loc(k["name"].get<std::string>()), k); kids.emplace_back(k["name"].get<std::string>(), std::move(n)); }
        if (p.contains("refs")) for (auto& r : p["refs"]) refs.push_back(lm::comp::get<Component>(r.get<std::string>()));
    }
    Component* underlying(const std::string& n) const override { for (auto& k : kids) if (k.first == n) return k.second.get(); return nullptr; }
    void foreach_underlying(const ComponentVisitor& v) override { for (auto& k : kids) lm::comp::visit(v, k.second); for (auto& r : refs) lm::comp::visit(v, r); }
};
LM_COMP_REG_IMPL(Log, "logger::p27"); LM_COMP_REG_IMPL(Par, "parallel::p27"); LM_COMP_REG_IMPL(Prog, "progress::p27"); LM_COMP_REG_IMPL(Obj, "objloader::p27"); LM_COMP_REG_IMPL(Node, "p27::node");

struct Capture { std::stringbuf b; std::streambuf* old; Capture() { old = std::cout.rdbuf(&b); } ~Capture() { std::cout.rdbuf(old); } };
enum { NONE, BUILTIN, MINE, UNKNOWN };
struct Service { int st = NONE, tag = 0, id = 0; };
const char* NAME[] = { "log", "parallel", "progress", "objloader" };
void svc_init(int k, const std::string& t, const Json& p) { switch (k) { case 0: lm::log::init(t, p); break; case 1: lm::parallel::init(t, p); break; case 2: lm::progress::init(t, p); break; default: lm::objloader::init(t, p); } }
void svc_stop(int k) { switch (k) { case 0: lm::log::shutdown(); break; case 1: lm::parallel::shutdown(); break; case 2: lm::progress::shutdown(); break; default: lm::objloader::shutdown(); } }
bool g_session = false; // of the process: cases follow one another

// error code of an Exception is part of its text only
template <class F> std::string outcome(F f) { try { f(); return "ok"; } catch (const lm::Exception& e) { const std::string w = e.what(); const size_t i = w.find("[err='"); return "error " + (i == std::string::npos ? std::string("?") : w.substr(i + 6, w.find('\'', i + 6) - i - 6)); } catch (const std::exception& e) { return std::string("exception ") + e.what(); } }

int count_nodes(const Json& j) { int n = 1; if (j.contains("kids")) for (auto& k : j["kids"]) n += count_nodes(k); return n; }

void run(Ctx& c) {
    Capture cap; auto& out = cap.b; g_throw = false;
    // a known start: no session, no service, no assets
    if (!g_session) lm::init(); lm::reset(); lm::shutdown(); g_session = false; for (int k = 0; k < 4; k++) svc_stop(k); lm::debug::reg_on_poll({});
    for (int k = 0; k < 5; k++) c.check(g_live[k] == 0, "left-over", [&] { return std::string(k < 4 ? NAME[k] : "asset") + ": " + std::to_string(g_live[k]) + " instances alive after the end of the session"; });
    Service sv[4]; bool inited = false; std::vector<std::pair<std::string, Json>> assets; bool ever = false; int uses = 0, starts = 0; std::vector<std::string> polled; int handler = 0; int nodes = 0;
    const auto st = [&](int k, const std::string& r, const std::string& want, const std::string& what) { c.check(r == want, std::string(k < 4 ? NAME[k] : "session") + "-outcome", [&] { return what + ": " + r + ", expected " + want; }); };
    const auto mine = [&](int k, const std::vector<std::string>& want, const std::string& what) {
        std::string got; bool ok = g_ev.size() == want.size(); for (size_t i = 0; i < g_ev.size(); i++) { got += "#" + std::to_string(g_ev[i].id) + " " + g_ev[i].what + "; "; if (ok) ok = g_ev[i].id == sv[k].id && g_ev[i].what == want[i]; }
        c.check(ok, std::string(NAME[k]) + "-calls", [&] { std::string w; for (auto& s : want) w += "#" + std::to_string(sv[k].id) + " " + s + "; "; return what + ": received " + got + " expected " + w; });
    };
    const int n = c.in(2, 30);
    for (int step = 0; step < n; step++) {
        out.str(""); g_ev.clear();
        const int op = c.weighted({ 4, 3, 2, 6, 2, 3, 4, 5, 4, 3, 5, 2, 3, 3 });
        if (op == 0) { c.note("init\n"); lm::init(); g_session = true; inited = ever = true; starts++; for (auto& s : sv) s = { BUILTIN, -1, 0 }; assets.clear(); nodes = 0; }
        else if (op == 1) { c.note("shutdown\n"); const auto r = outcome([] { lm::shutdown(); }); st(9, r, inited ? "ok" : "error Uninitialized", "shutdown"); if (inited) for (auto& s : sv) s = {}; inited = g_session = false; }
        else if (op == 2) { if (!inited) continue; c.note("reset\n"); lm::reset(); assets.clear(); nodes = 0; }
        else if (op == 3) { // start (or replace) one service
            const int k = c.in(0, 3); const bool own = c.chance(.7); const int tag = own ? c.in(0, 5) : k == 1 ? c.in(1, 6) : -1;
            c.note(NAME[k], own ? " own " : " builtin ", tag, "\n");
            if (own) svc_init(k, "p27", { {"tag", tag} }); else if (k == 1) svc_init(k, "openmp", { {"num_threads", tag} }); else svc_init(k, k == 3 ? "simple" : "default", {});
            sv[k] = { own ? MINE : BUILTIN, tag, own ? g_last[k] : 0 };
        }
        else if (op == 4) { // a service that cannot be made
            const int k = c.in(0, 3); const bool unknown = c.coin(); c.note(NAME[k], unknown ? " unknown type" : " refusing type", "\n");
            g_throw = true; const auto r = outcome([&] { svc_init(k, unknown ? "p27_missing" : "p27", {}); }); g_throw = false;
            c.check(r.compare(0, 9, "exception") != 0 && (unknown || r != "ok"), "bad-service", [&] { return std::string(NAME[k]) + ": " + r; });
            sv[k] = { UNKNOWN, 0, 0 }; c.check(g_live[k] <= 1, "service-instances", [&] { return std::string(NAME[k]) + ": " + std::to_string(g_live[k]) + " instances"; });
            // whatever is in force now, asking for it neither crashes nor reaches a half-made instance
            g_ev.clear(); const auto q = outcome([&] { switch (k) { case 0: lm::log::log(LogLevel::Info, 0, "f", 1, "m"); break; case 1: lm::parallel::num_threads(); break; case 2: lm::progress::update(1); break; default: { lm::objloader::OBJSurfaceGeometry g; lm::objloader::load("/nonexistent", g, [](const lm::objloader::OBJMeshFace&, const lm::objloader::MTLMatParams&) { return true; }, [](const lm::objloader::MTLMatParams&) { return true; }); } } });
            c.check(q == "ok" || q == "error Uninitialized", "bad-service-use", [&] { return std::string(NAME[k]) + " after a failed start: " + q; });
            if (c.coin()) { svc_stop(k); sv[k] = {}; } else { svc_init(k, "p27", { {"tag", 3} }); sv[k] = { MINE, 3, g_last[k] }; }
        }
        else if (op == 5) { const int k = c.in(0, 3); c.note("stop ", NAME[k], "\n"); svc_stop(k); if (c.chance(.2)) svc_stop(k); sv[k] = {}; }
        else if (op == 6) { // log
            const std::string m = "message " + std::to_string(c.in(0, 99)); const int sev = c.in(0, 3) * 10; c.note("log ", m, "\n"); uses++;
            lm::log::log(LogLevel::Warn, sev, "some/file.cpp", 12, m.c_str());
            const std::string o = out.str();
            if (sv[0].st == MINE) { mine(0, { "log 20 " + std::to_string(sev) + " some/file.cpp 12 " + m }, "log"); c.check(o.empty(), "log-stray", [&] { return "the message went to '" + o + "'"; }); }
            else { c.check(g_ev.empty(), "log-calls", [&] { return std::string("a logger that is not in force was called"); }); size_t k = 0, p = 0; while ((p = o.find(m, p)) != std::string::npos) k++, p++; c.check(k == 1, "log-lost", [&] { return "the output is '" + o + "' for '" + m + "'"; }); }
            if (c.coin()) { g_ev.clear(); lm::log::set_severity(-c.in(0, 9)); { lm::log::LogIndenter li; } if (sv[0].st == MINE) c.check(g_ev.size() == 3 && g_ev[0].id == sv[0].id && g_ev[1].what == "indent 1" && g_ev[2].what == "indent -1", "log-calls", [&] { return std::string("severity and indentation did not reach the logger"); }); else c.check(g_ev.empty(), "log-calls", [&] { return std::string("a logger that is not in force was called"); }); }
        }
        else if (op == 7) { // parallel loops
            const int cnt = c.in(0, 30); std::vector<std::atomic<int>> hit(cnt + 1); for (auto& h : hit) h = 0; int threads = -1; c.note("loop ", cnt, "\n"); uses++;
            const auto r = outcome([&] { threads = lm::parallel::num_threads(); lm::parallel::foreach(cnt, [&](long long i, int) { if (i >= 0 && i < cnt) hit[i]++; else hit[cnt]++; }); });
            st(1, r, sv[1].st == NONE ? "error Uninitialized" : "ok", "parallel loop");
            const int hw = std::thread::hardware_concurrency(), want = sv[1].st == MINE ? 100 + sv[1].tag : sv[1].tag < 0 ? hw : sv[1].tag;
            if (sv[1].st != NONE) { c.check(threads == want, "parallel-config", [&] { return std::to_string(threads) + " threads, expected " + std::to_string(want); }); for (int i = 0; i <= cnt; i++) c.check(hit[i] == (i < cnt), "parallel-count", [&] { return "index " + std::to_string(i) + " ran " + std::to_string(hit[i].load()) + " times"; }); }
            else for (int i = 0; i <= cnt; i++) c.check(hit[i] == 0, "parallel-count", [&] { return std::string("the loop ran without a service"); });
            if (sv[1].st == MINE) mine(1, { "threads", "foreach " + std::to_string(cnt) }, "parallel loop"); else c.check(g_ev.empty(), "parallel-calls", [&] { return std::string("a service that is not in force was called"); });
            if (sv[1].st == MINE) { g_ev.clear(); c.check(lm::parallel::main_thread() == (sv[1].tag % 2 == 0), "parallel-main", [&] { return std::string("main_thread() is not the service's answer"); }); }
        }
        else if (op == 8) { // progress
            const long long tot = c.in(0, 1000), k = c.in(0, 1000); const double t = c.real(0, 5); const bool timed = c.coin(), half = c.chance(.2); c.note("progress ", timed ? "timed" : "samples", "\n"); uses++;
            const auto r = outcome([&] { if (half) { lm::progress::update(k); return; } if (timed) { lm::progress::ScopedTimeReport s(t); lm::progress::update_time(t / 2); } else { lm::progress::ScopedReport s(tot); lm::progress::update(k); } });
            st(2, r, sv[2].st == NONE ? "error Uninitialized" : "ok", "progress");
            if (sv[2].st != MINE) c.check(g_ev.empty() || sv[0].st == MINE, "progress-calls", [&] { return std::string("a reporter that is not in force was called"); });
            else if (half) mine(2, { "update " + std::to_string(k) }, "progress");
            else if (timed) mine(2, { "start " + std::to_string(int(lm::progress::ProgressMode::Time)) + " -1 " + S(t), "time " + S(t / 2), "end" }, "progress");
            else mine(2, { "start " + std::to_string(int(lm::progress::ProgressMode::Samples)) + " " + std::to_string(tot) + " " + S(-1.), "update " + std::to_string(k), "end" }, "progress");
        }
        else if (op == 9) { // model loader
            if (!inited) continue;
            const std::string f = c.scratch + "/m.obj"; const int tri = c.in(1, 4); { std::ofstream o(f); o << "v 0 0 0\nv 1 0 0\nv 0 1 0\n"; for (int i = 0; i < tri; i++) o << "f 1 2 3\n"; } c.note("load OBJ\n"); uses++;
            lm::Mesh* m = nullptr; const auto r = outcome([&] { m = dynamic_cast<lm::Mesh*>(lm::assets()->load_asset("mesh", "mesh::wavefrontobj", { {"path", f} })); });
            const bool had = std::any_of(assets.begin(), assets.end(), [](auto& a) { return a.first == "mesh"; });
            if (sv[3].st == NONE) { c.check(r == "error Uninitialized" && !m, "objloader-outcome", [&] { return "loading a mesh without a loader: " + r; }); c.check(bool(lm::comp::get<lm::Component>("$.assets.mesh")) == had, "half-made", [&] { return std::string("the failed mesh is registered"); }); }
            else { const int want = sv[3].st == MINE ? sv[3].tag + 1 : tri; st(3, r, "ok", "loading a mesh"); c.check(m && m->num_triangles() == want, "objloader-result", [&] { return "mesh of " + std::to_string(m ? m->num_triangles() : -1) + " triangles, expected " + std::to_string(want); }); if (!had) assets.push_back({ "mesh", Json() }); }
            int calls = 0; for (auto& e : g_ev) if (e.what == "load " + f) { calls++; c.check(e.id == sv[3].id, "objloader-calls", [&] { return std::string("another loader was called"); }); } c.check(calls == (sv[3].st == MINE), "objloader-calls", [&] { return std::to_string(calls) + " calls of the loader"; });
        }
        else if (op == 10) { // assets
            if (!inited) continue;
            const std::string nm = c.pick(std::vector<std::string>{ "a", "b", "c", "d_1", "film" }); bool old = false; for (auto& a : assets) old |= a.first == nm; if (old) continue;
            Json j = { {"name", nm} }; const int kids = c.in(0, 3); if (kids) j["kids"] = Json::array(); for (int i = 0; i < kids; i++) { Json k = { {"name", "k" + std::to_string(i)} }; if (c.chance(.3)) k["kids"] = Json::array({ { {"name", "deep"} } }); j["kids"].push_back(k); }
            if (!assets.empty() && c.coin()) { j["refs"] = Json::array(); for (int i = c.in(1, 2); i--;) j["refs"].push_back("$.assets." + c.pick(assets).first); }
            c.note("asset ", j.dump(), "\n"); const auto* p = lm::assets()->load_asset(nm, "p27::node", j); c.check(p && p == lm::comp::get<lm::Component>("$.assets." + nm), "asset", [&] { return "asset " + nm + " is not what its locator denotes"; });
            assets.push_back({ nm, j }); nodes += count_nodes(j);
        }
        else if (op == 11) { c.note("info\n"); const auto r = outcome([] { lm::info(); }); st(9, r, inited ? "ok" : "error Uninitialized", "info"); }
        else if (op == 12) { // poll
            const Json v = { {"k", c.in(0, 9)}, {"s", "x"}, {"l", { 1, 2.5, nullptr, true } } }; 
            if (c.coin()) { handler = c.in(0, 3); if (handler) { const int h = handler; lm::debug::reg_on_poll([h, &polled](const Json& j) { polled.push_back(std::to_string(h) + j.dump()); }); } else lm::debug::reg_on_poll({}); }
            polled.clear(); c.note("poll, handler ", handler, "\n"); lm::debug::poll(v);
            c.check(handler ? polled.size() == 1 && polled[0] == std::to_string(handler) + v.dump() : polled.empty(), "poll", [&] { return std::to_string(polled.size()) + " polled values " + (polled.empty() ? "" : polled[0]) + ", expected " + std::to_string(handler) + v.dump(); });
        }
        else { // asset tree
            if (!inited) continue;
            const bool weak = c.coin(); c.note("tree ", weak, "\n"); uses++;
            if (sv[0].st != MINE) { lm::log::init("p27", { {"tag", 0} }); sv[0] = { MINE, 0, g_last[0] }; }
            g_ev.clear(); lm::debug::print_asset_tree(weak);
            struct L { int d; std::string a, b; }; std::vector<L> want; 
            const std::function<void(const Json&, int)> add = [&](const Json& j, int d) { want.push_back({ d, "." + j["name"].get<std::string>(), "p27::node" }); if (j.contains("kids")) for (auto& k : j["kids"]) add(k, d + 1); if (weak && j.contains("refs")) for (auto& r : j["refs"]) want.push_back({ d + 1, "->", r.get<std::string>() }); };
            want.push_back({ 0, "$.assets", "" }); for (auto& a : assets) if (a.second.is_null()) want.push_back({ 1, ".mesh", "mesh::wavefrontobj" }); else add(a.second, 1);
            size_t i = 0; int d = 0; std::string text; bool ok = true;
            for (auto& e : g_ev) { if (e.what.compare(0, 7, "indent ") == 0) { d += std::stoi(e.what.substr(7)); continue; } std::string m = e.what; for (int k = 0; k < 5; k++) m = m.substr(m.find(' ') + 1); text += std::string(2 * std::max(d, 0), ' ') + m + "\n"; ok &= i < want.size() && d == want[i].d && m.find(want[i].a) != std::string::npos && m.find(want[i].b) != std::string::npos && e.id == sv[0].id; i++; }
            c.check(ok && i == want.size() && d == 0, "tree", [&] { std::string w; for (auto& l : want) w += std::string(2 * l.d, ' ') + l.a + " " + l.b + "\n"; return "the tree\n" + text + "expected\n" + w; });
        }
        // after every step: the instances in force, the assets and the root are the expected ones
        for (int k = 0; k < 4; k++) c.check(g_live[k] == (sv[k].st == MINE), "service-instances", [&] { return std::string(NAME[k]) + ": " + std::to_string(g_live[k]) + " instances alive, expected " + std::to_string(sv[k].st == MINE); });
        c.check(!ever || g_live[4] == nodes || (!inited && g_live[4] == 0), "asset-instances", [&] { return std::to_string(g_live[4]) + " components alive, expected " + std::to_string(nodes); });
        if (inited) {
            c.check(lm::assets() && lm::comp::get<lm::Component>("$.assets") == lm::assets(), "root", [&] { return std::string("$.assets is not the root of the assets"); });
            for (auto& nm : { "a", "b", "c", "d_1", "film", "mesh" }) { const bool want = std::any_of(assets.begin(), assets.end(), [&](auto& a) { return a.first == nm; }); c.check(bool(lm::comp::get<lm::Component>(std::string("$.assets.") + nm)) == want, "asset-set", [&] { return std::string(nm) + (want ? " is missing" : " is still there"); }); }
        }
    }
    lm::debug::reg_on_poll({});
    c.nontrivial = uses >= 2 && starts >= 1; c.label(starts > 1 ? "several sessions" : starts ? "one session" : "no session");
}
}
int main(int argc, char** argv) {
    pbt::Prop p; p.id = "P27";
    p.rule = "case = history of 2-30 calls: starting, ending and resetting the session, starting/replacing/stopping each of the four services (built-in or recording implementations made by the harness, unknown or refusing types), uses of the services (log, loops, progress, model loading), creating assets with owned children and references, info, poll handlers, asset tree; after each call the live instances, the assets, the receiver and content of every call and the error of calls that cannot be served are compared with a model. Non-trivial: at least one session and two uses of services.";
    p.assumptions = { "reset and asset calls are made within a session", "after a service could not be started, the service in force is unspecified: its use may fail as uninitialised or work" };
    p.run = run; p.worker_init = [] {}; p.quick_cases = 400000; p.thorough_cases = 20000000; p.quick_s = 20; p.thorough_s = 300; p.case_timeout = 30;
    return pbt::main(argc, argv, p);
}
