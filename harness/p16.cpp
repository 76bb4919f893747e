// P16: parallel loops and sample schedulers, exact counting oracle.
#include "lmgen.h"
#include <lm/film.h>
#include <lm/parallel.h>
#include <lm/scheduler.h>
#include <lm/progresscontext.h>
#include <thread>
#include <algorithm>
#include <atomic>
#include <mutex>
#include <sys/wait.h>
#include <unistd.h>
using namespace lmgen;

namespace {
// Records what the progress subsystem is told
struct Rec : public lm::progress::ProgressContext {
    static std::vector<std::string>& bad() { static std::vector<std::string> b; return b; }
    static std::mutex& mx() { static std::mutex m; return m; }
    static long long& total() { static long long t = 0; return t; } static int& starts() { static int t = 0; return t; } static int& ends() { static int t = 0; return t; }
    long long prev = 0; bool open = false, time = false; int no = -1;
    static std::vector<std::vector<double>>& logs() { static std::vector<std::vector<double>> l; return l; }
    void log(double v) { if (no < 0) { no = int(logs().size()); logs().push_back({}); } logs()[no].push_back(v); }
    void start(lm::progress::ProgressMode m, long long t, double tt) override { std::lock_guard<std::mutex> g(mx()); starts()++; if (open) bad().push_back("started twice"); open = true; time = m == lm::progress::ProgressMode::Time; if (!time) total() = t; prev = 0; }
    void update(long long p) override { std::lock_guard<std::mutex> g(mx()); log(double(p)); if (!open || time) bad().push_back("update outside of a report"); if (p < prev || p > total()) bad().push_back("update " + std::to_string(p) + " after " + std::to_string(prev) + " of " + std::to_string(total())); prev = p; }
    void update_time(Float e) override { std::lock_guard<std::mutex> g(mx()); log(e); if (!open || !time || e < 0) bad().push_back("time update outside of a report"); }
    void end() override { std::lock_guard<std::mutex> g(mx()); ends()++; if (!open) bad().push_back("ended twice"); open = false; }
};
LM_COMP_REG_IMPL(Rec, "progress::verif_rec");
void spin(int n) { volatile int x = 0; for (int i = 0; i < n; i++) x = x + i; }
struct Boom { long long i; };

void loops(Ctx& c) {
    const int hc = int(std::thread::hardware_concurrency()); int nt = c.weighted({ 6, 1 }) == 0 ? c.in(1, 12) : -c.in(0, hc - 1);
    Json p = { {"num_threads", nt} }; const bool iv = c.coin(); const int interval = iv ? c.in(1, 300) : 100; if (iv) p["progress_update_interval"] = interval;
    lm::parallel::init("openmp", p); const int want = nt > 0 ? nt : hc + nt;
    c.check(lm::parallel::num_threads() == want, "num-threads", [&] { return "num_threads() is " + std::to_string(lm::parallel::num_threads()) + " for " + p.dump(); });
    const int nl = c.in(1, 5); c.note("threads ", nt, " interval ", interval, ":");
    const bool other = c.chance(.2);
    for (int l = 0; l < nl; l++) {
        const long long n = c.weighted({ 1, 3, 3 }) == 0 ? c.in(0, 2) : c.coin() ? c.in(0, 700) : c.in(0, 60); const int work = c.in(0, 3); const bool boom = n > 0 && c.chance(.2); const long long bi = boom ? c.in(0, int(n) - 1) : -1; const bool prog = c.coin();
        const int nested = c.chance(.1) ? c.in(1, 9) : 0;
        c.note(" loop ", n, boom ? " throws at " + std::to_string(bi) : "", other ? " from another thread" : "", nested ? " nested" : "");
        std::vector<std::atomic<int>> cnt(n + 1), inner(nested + 1); std::atomic<int> badid{ -1 }, outside{ 0 }; std::vector<long long> ps; std::mutex m; std::vector<std::thread::id> owner(256); std::atomic<int> mixed{ 0 };
        const auto body = [&](long long i, int id) {
            if (i < 0 || i >= n) { outside++; return; }
            cnt[i]++; if (id < 0 || id >= want) badid = id; else { std::lock_guard<std::mutex> g(m); if (owner[id] == std::thread::id()) owner[id] = std::this_thread::get_id(); else if (owner[id] != std::this_thread::get_id()) mixed++; }
            if (work) spin(work == 3 ? int(i * 37 % 3000) : 200 * work);
            if (i == bi) throw Boom{ i };
            if (nested && i == 0) lm::parallel::foreach(nested, [&](long long k, int) { inner[k]++; });
        };
        long long caught = -1; const auto go = [&] {
            try { if (prog) lm::parallel::foreach(n, body, [&](long long q) { std::lock_guard<std::mutex> g(m); ps.push_back(q); }); else lm::parallel::foreach(n, body); }
            catch (const Boom& b) { caught = b.i; }
        };
        if (other) { std::thread t(go); t.join(); } else go();
        const auto ctx = [&](const std::string& s) { return s + " [loop over " + std::to_string(n) + " with " + std::to_string(want) + " threads" + (other ? " started from another thread" : "") + "]"; };
        c.check(outside == 0, "index", [&] { return ctx("index outside of the range"); });
        c.check(badid == -1, "thread-id", [&] { return ctx("thread number " + std::to_string(badid)); });
        c.check(mixed == 0, "thread-id-shared", [&] { return ctx("one thread number was used by different threads"); });
        c.check(caught == bi, "exception", [&] { return ctx(boom ? "exception thrown by the body did not reach the caller" : "unexpected exception"); });
        for (long long i = 0; i < n; i++) c.check(boom ? cnt[i] <= 1 : cnt[i] == 1, "count", [&] { return ctx("index " + std::to_string(i) + " was processed " + std::to_string(cnt[i]) + " times"); });
        if (nested && !boom && n > 0) for (int i = 0; i < nested; i++) c.check(inner[i] == 1, "nested", [&] { return ctx("index " + std::to_string(i) + " of the nested loop was processed " + std::to_string(inner[i]) + " times"); });
        for (size_t k = 0; k < ps.size(); k++) {
            c.check(ps[k] >= 0 && ps[k] <= n, "progress-range", [&] { return ctx("progress reported " + std::to_string(ps[k]) + " of " + std::to_string(n)); });
            c.check(k == 0 || ps[k] >= ps[k - 1], "progress-order", [&] { return ctx("progress went back from " + std::to_string(ps[k - 1]) + " to " + std::to_string(ps[k])); });
        }
        if (want > 1 && n > want) c.nontrivial = true;
    }
    c.label("loop"); if (other) c.label("other-thread");
}

void sched(Ctx& c) {
    const int nt = c.in(1, 8); lm::parallel::init("openmp", { {"num_threads", nt} });
    const int w = c.in(1, 8), h = c.in(1, 8); auto* film = get<Film>(asset("film", "film::bitmap", { {"w", w}, {"h", h} })); (void)film;
    const int kind = c.weighted({ 5, 5, 1, 1 }); Json p = { {"output", "$.assets.film"} }; std::string key; long long npix = w * h, spp = 0; double T = 0; long long per = 0;
    if (kind == 0) { key = "scheduler::spp::sample"; spp = c.in(0, 20); p["spp"] = spp; }
    else if (kind == 1) { key = "scheduler::spi::sample"; spp = c.in(0, 900); p["num_samples"] = spp; npix = 1; }
    else if (kind == 2) { key = "scheduler::spp::time"; T = c.chance(.2) ? c.pick(std::vector<double>{ 0, -1, 1e-6 }) : c.real(.005, .04); p["render_time"] = T; }
    else { key = "scheduler::spi::time"; T = c.chance(.2) ? c.pick(std::vector<double>{ 0, -1, 1e-6 }) : c.real(.005, .04); per = c.in(1, 500); p["render_time"] = T; p["samples_per_iter"] = per; npix = 1; }
    c.note(key, " ", p.dump(), " film ", w, "x", h, " threads ", nt);
    auto s = lm::comp::create<lm::scheduler::Scheduler>(key, "sched", p); if (!s) c.fail("create", "cannot create " + key);
    const auto ctx = [&](const std::string& t) { return t + " [" + key + " " + p.dump() + " " + std::to_string(w) + "x" + std::to_string(h) + " threads " + std::to_string(nt) + "]"; };
    const int nrec = c.in(1, 3); Json recs = Json::array(); int ndelay = 0; for (int i = 0; i < nrec; i++) { Json r = { {"progress::verif_rec", Json::object()} }; if (i > 0 && c.chance(.2)) { ndelay++; r = { {"progress::delay", { {"delay", c.in(0, 50)}, {"progress", r} }} }; } recs.push_back(r); }
    lm::progress::init("mux", recs); Rec::bad().clear(); Rec::logs().clear(); Rec::starts() = Rec::ends() = 0;
    const int reps = kind < 2 ? c.in(1, 2) : 1;
    for (int rep = 0; rep < reps; rep++) {
        std::mutex m; std::map<std::pair<long long, long long>, int> cnt; std::atomic<int> badid{ -1 }; double last_round = 0; long long maxs = -1; const double t0 = pbt::now();
        const bool boom = kind < 2 && spp > 0 && c.chance(.1); bool caught = false;
        long long r = -1;
        try { r = s->run([&](long long px, long long sm, int id) { if (id < 0 || id >= nt) badid = id; std::lock_guard<std::mutex> g(m); cnt[{ px, sm }]++; if (kind == 3 ? sm / per > maxs : sm > maxs) { maxs = kind == 3 ? sm / per : sm; last_round = pbt::now() - t0; } if (boom) throw Boom{ 0 }; }); } catch (const Boom&) { caught = true; }
        const double el = pbt::now() - t0;
        c.check(badid == -1, "sched-thread-id", [&] { return ctx("thread number " + std::to_string(badid)); });
        c.check(caught == boom, "sched-exception", [&] { return ctx("exception of the sample function"); });
        if (boom) continue;
        if (kind < 2) c.check(r == spp, "sched-return", [&] { return ctx("returned " + std::to_string(r)); });
        else {
            c.check(r > 0 && (kind == 2 || r % per == 0), "sched-return", [&] { return ctx("returned " + std::to_string(r)); });
            c.check(el > T - 2e-3, "sched-early", [&] { return ctx("stopped after " + S(el) + " s"); });
            c.check(last_round < std::max(T, 0.) + 1.0, "sched-late", [&] { return ctx("started another round after " + S(last_round) + " s"); });
        }
        c.check((long long)cnt.size() == npix * r, "sched-total", [&] { return ctx(std::to_string(cnt.size()) + " distinct samples for " + std::to_string(npix) + " pixels and returned count " + std::to_string(r)); });
        for (auto& q : cnt) c.check(q.second == 1 && q.first.first >= 0 && q.first.first < npix && q.first.second >= 0 && q.first.second < r, "sched-sample", [&] { return ctx("sample " + std::to_string(q.first.second) + " of pixel " + std::to_string(q.first.first) + " processed " + std::to_string(q.second) + " times"); });
        if (nt > 1 && npix * r > nt) c.nontrivial = true;
    }
    c.check(Rec::starts() == nrec * reps && Rec::ends() == nrec * reps, "report-calls", [&] { return ctx("progress reports started " + std::to_string(Rec::starts()) + " and ended " + std::to_string(Rec::ends()) + " times for " + std::to_string(reps) + " runs and " + std::to_string(nrec) + " reporters"); });
    c.check(Rec::bad().empty(), "report", [&] { return ctx("progress reporter: " + Rec::bad()[0]); });
    if (!ndelay) { // every reporter is told the same
        auto l = Rec::logs(); for (auto& v : l) std::sort(v.begin(), v.end());
        c.check(l.empty() || (int(l.size()) == nrec && std::all_of(l.begin(), l.end(), [&](const std::vector<double>& v) { return v == l[0]; })), "report-same", [&] { return ctx("the " + std::to_string(nrec) + " progress reporters were not told the same"); });
        if (!l.empty() && nrec > 1) c.label("reporters-compared");
    } else c.label("reporter-delayed");
    if (kind < 2) c.check(Rec::total() == (kind == 0 ? npix * spp : spp), "report-total", [&] { return ctx("progress total " + std::to_string(Rec::total())); });
    lm::progress::init();
    c.label(key);
}
// Loops of billions of indices: only their beginning is run, in a child that exits after some calls.
void huge(Ctx& c) {
    const int kind = c.in(0, 2), calls = c.in(1, 300); const long long n = c.pick(std::vector<long long>{ 1LL << 31, 1LL << 32, 3LL << 32, 1LL << 40 });
    c.note("huge ", kind, " of ", n, " first ", calls, " calls");
    lm::parallel::init("openmp", { {"num_threads", 1} });
    asset("film", "film::bitmap", { {"w", 64}, {"h", 64} });
    fflush(stdout); fflush(stderr);
    const pid_t pid = fork(); if (pid < 0) throw pbt::Discard{};
    if (pid == 0) {
        alarm(30); int k = 0;
        const auto one = [&](bool ok) { if (!ok) _exit(51); if (++k == calls) _exit(50); };
        try {
            if (kind == 0) lm::parallel::foreach(n, [&](long long i, int) { one(i >= 0 && i < n); });
            else {
                Json p = { {"output", "$.assets.film"} }; p[kind == 1 ? "spp" : "num_samples"] = kind == 1 ? n / 4096 : n;
                auto s = lm::comp::create<lm::scheduler::Scheduler>(kind == 1 ? "scheduler::spp::sample" : "scheduler::spi::sample", "sched", p);
                s->run([&](long long px, long long sm, int) { one(px >= 0 && px < (kind == 1 ? 4096 : 1) && sm >= 0 && sm < (kind == 1 ? n / 4096 : n)); });
            }
        } catch (...) { _exit(53); }
        _exit(52);
    }
    int st = 0; waitpid(pid, &st, 0); const int rc = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    c.check(rc == 50, "huge", [&] { return (kind == 0 ? "parallel loop over " : kind == 1 ? "scheduler::spp::sample with 4096 pixels and total samples " : "scheduler::spi::sample with ") + std::to_string(n) + (rc == 51 ? ": an index outside of the range was processed" : rc == 52 ? ": finished after fewer than " + std::to_string(calls) + " of the calls" : rc == 53 ? ": raised an error" : ": crashed or hung, status " + std::to_string(st)); });
    c.label("huge"); c.nontrivial = true;
}
// A history of reports given directly to a tree of reporters: each is told what its place in the tree implies.
struct Ev { int kind; double v, tot; bool operator==(const Ev& o) const { return kind == o.kind && v == o.v && tot == o.tot; } };
struct Tap : public lm::progress::ProgressContext { // records under the number given at creation
    static std::map<int, std::vector<Ev>>& logs() { static std::map<int, std::vector<Ev>> l; return l; }
    int no = 0;
    void construct(const Json& p) override { no = p["no"]; logs()[no]; }
    void start(lm::progress::ProgressMode m, long long t, double tt) override { logs()[no].push_back({ 0, double(t), tt + 1e6 * (m == lm::progress::ProgressMode::Time) }); }
    void update(long long p) override { logs()[no].push_back({ 1, double(p), 0 }); }
    void update_time(Float e) override { logs()[no].push_back({ 2, e, 0 }); }
    void end() override { logs()[no].push_back({ 3, 0, 0 }); }
};
LM_COMP_REG_IMPL(Tap, "progress::verif_tap");
void reporters(Ctx& c) {
    struct Leaf { int no, delay; }; std::vector<Leaf> leaves; Tap::logs().clear(); int count = 0;
    const std::function<Json(int, int)> node = [&](int depth, int delay) -> Json {
        const int k = depth <= 0 ? 0 : c.weighted({ 3, 2, delay == -2 ? 3 : 0 });
        if (k == 1) { Json a = Json::array(); const int n = c.in(1, 3); for (int i = 0; i < n; i++) a.push_back(node(depth - 1, delay)); return { {"progress::mux", a} }; }
        if (k == 2) { const int d = c.weighted({ 3, 3, 1 }) == 0 ? -1 : c.coin() ? c.in(0, 3) : 1000000; return { {"progress::delay", { {"delay", d}, {"progress", node(depth - 1, d)} }} }; }
        leaves.push_back({ count, delay }); return { {"progress::verif_tap", { {"no", count++} }} };
    };
    Json top = Json::array(); const int n = c.in(1, 3); for (int i = 0; i < n; i++) top.push_back(node(3, -2));
    c.note("reporters ", top.dump()); lm::progress::init("mux", top);
    struct Call { Ev e; double t0, t1; }; std::vector<Call> calls;
    const int runs = c.in(1, 3);
    for (int r = 0; r < runs; r++) {
        const bool time = c.chance(.4); const long long tot = c.coin() ? c.in(100, 200) : (1LL << 40) + c.in(0, 100); const double tt = time ? c.real(.1, 10) : 0; long long p = 0; double el = 0;
        const auto call = [&](const Ev& e, auto&& f) { const double t0 = pbt::now(); f(); calls.push_back({ e, t0, pbt::now() }); };
        call({ 0, double(tot), tt + 1e6 * time }, [&] { lm::progress::start(time ? lm::progress::ProgressMode::Time : lm::progress::ProgressMode::Samples, tot, tt); });
        const int nu = c.in(0, 6);
        for (int i = 0; i < nu; i++) {
            if (c.chance(.3)) usleep(c.in(100, 5000));
            p += c.in(1, 16); el += c.real(1e-3, .1); // distinct values: what is told identifies the call
            if (time) call({ 2, el, 0 }, [&] { lm::progress::update_time(el); }); else call({ 1, double(p), 0 }, [&] { lm::progress::update(p); });
        }
        call({ 3, 0, 0 }, [&] { lm::progress::end(); });
    }
    c.check(int(Tap::logs().size()) == count, "reporters", [&] { return std::to_string(Tap::logs().size()) + " of " + std::to_string(count) + " reporters were created for " + top.dump(); });
    for (const auto& l : leaves) {
        const auto& got = Tap::logs()[l.no]; size_t g = 0; double l0 = 0, l1 = 0; // time of the last update passed on
        for (const auto& k : calls) {
            const bool hit = g < got.size() && got[g] == k.e; bool must = true, may = true;
            if (l.delay >= 0 && (k.e.kind == 1 || k.e.kind == 2)) { must = k.t0 - l1 > (l.delay + 1) * 1e-3 + 1e-3; may = k.t1 - l0 > l.delay * 1e-3 - 1e-3; }
            const auto ctx = [&](const std::string& t) { return "reporter " + std::to_string(l.no) + " of " + top.dump() + " " + t + " (call kind " + std::to_string(k.e.kind) + ", value " + S(k.e.v) + ")"; };
            if (must) c.check(hit, "reporter-told", [&] { return ctx("was not told what was reported"); });
            if (hit && !may) { c.check(false, "reporter-early", [&] { return ctx("was told before its delay had passed"); }); }
            if (hit) { g++; l0 = k.t0; l1 = k.t1; }
        }
        c.check(g == got.size(), "reporter-extra", [&] { return "reporter " + std::to_string(l.no) + " of " + top.dump() + " was told something that was never reported"; });
        if (l.delay >= 0 && calls.size() > 3) c.label("reporter-held");
    }
    lm::progress::init(); c.label("reporters"); if (count > 1 && calls.size() > 3) c.nontrivial = true;
}
void run(Ctx& c) { lm::reset(); switch (c.weighted({ 10, 10, 1, 4 })) { case 0: loops(c); break; case 1: sched(c); break; case 2: huge(c); break; default: reporters(c); } }
}
int main(int argc, char** argv) {
    pbt::Prop p; p.id = "P16";
    p.rule = "case = up to five consecutive parallel loops (0-700 indices, 1-12 threads or a count relative to the cores, progress intervals, throwing bodies, nested loops, loops started from another thread) or one scheduler run (samples per pixel / per image, by count or by time); every index/sample counted exactly; or the first calls of a loop or schedule of 2^31 to 2^40 samples; or a history of reports given to a tree of (multiplexed, delayed) progress reporters. Non-trivial: more indices than threads and more than one thread.";
    p.assumptions = { "schedules are those the operating system produces", "a time-limited scheduler may overrun by one round; starting a round more than a second late is a failure" };
    p.run = run; p.worker_init = init_lm; p.workers = 4; p.quick_cases = 30000; p.thorough_cases = 1000000; p.quick_s = 25; p.thorough_s = 300; p.case_timeout = 60;
    return pbt::main(argc, argv, p);
}
