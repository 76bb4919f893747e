// Minimal property-based testing engine: recorded choice sequences, forked workers,
// crash/hang capture, shrinking of the choice sequence and replay files.
//
// A property is a function void(pbt::Ctx&). It draws every random decision from the Ctx, so a case
// is completely described by its list of bounded integers ("choices"). Failures (thrown pbt::Fail,
// uncaught exceptions, signals, sanitizer exits, hangs) are shrunk by editing that list.
#pragma once
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#if !defined(__SANITIZE_ADDRESS__) && !defined(PBT_NO_POISON)
// Fresh and released memory holds a pattern, so that reading a member that was never set, or an object that is gone,
// shows as a difference instead of returning by chance what was there before.
#include <malloc.h>
#include <new>
namespace pbt_poison {
constexpr size_t Span = 1024;
inline void* get(size_t n, size_t al) { void* p = al <= 16 ? std::malloc(n ? n : 1) : aligned_alloc(al, (n + al - 1) / al * al); if (!p) throw std::bad_alloc(); std::memset(p, 0xa5, n < Span ? n : Span); return p; }
inline void put(void* p) noexcept { if (!p) return; const size_t n = malloc_usable_size(p); std::memset(p, 0x5a, n < Span ? n : Span); asm volatile("" ::: "memory"); std::free(p); }
}
void* operator new(size_t n) { return pbt_poison::get(n, 16); }
void* operator new[](size_t n) { return pbt_poison::get(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return pbt_poison::get(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return pbt_poison::get(n, size_t(a)); }
void operator delete(void* p) noexcept { pbt_poison::put(p); }
void operator delete[](void* p) noexcept { pbt_poison::put(p); }
void operator delete(void* p, size_t) noexcept { pbt_poison::put(p); }
void operator delete[](void* p, size_t) noexcept { pbt_poison::put(p); }
void operator delete(void* p, std::align_val_t) noexcept { pbt_poison::put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { pbt_poison::put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { pbt_poison::put(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { pbt_poison::put(p); }
#endif

namespace pbt {

using u64 = std::uint64_t;

inline double now() {
    timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

inline u64 splitmix(u64& s) {
    u64 z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

inline u64 hash_str(const std::string& s) {
    u64 h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}

// Failure of the property. `key` identifies the kind of failure (used for known findings).
struct Fail {
    std::string key, msg;
};
// The generated case is outside the property's domain.
struct Discard {};

// Plain random numbers derived from a case (for Monte Carlo inside a case).
struct Rand {
    u64 s;
    explicit Rand(u64 seed) : s(seed) { splitmix(s); }
    u64 next() { return splitmix(s); }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    int below(int n) { return int(next() % u64(n)); }
};

class Ctx {
public:
    std::vector<u64> choices;   // recorded
    std::vector<u64> replay;    // prefix to replay
    bool replaying = false;
    u64 state = 0;
    std::map<std::string, long long> labels;
    std::ostringstream desc;
    bool nontrivial = false;
    long long evals = 0;        // number of oracle comparisons performed in this case
    int tier = 0;               // 0: quick, 1: thorough
    std::string scratch;        // private scratch directory (exists)
    std::set<std::string>* known = nullptr;
    std::map<std::string,long long>* known_hits = nullptr;

    // Uniform integer in [0,max]
    u64 raw(u64 max) {
        u64 v;
        if (replaying) {
            v = choices.size() < replay.size() ? std::min(replay[choices.size()], max) : 0;
        } else {
            const u64 r = splitmix(state);
            v = max == ~0ULL ? r : r % (max + 1);
        }
        choices.push_back(v);
        if (choices.size() > 400000) throw Discard{};
        if (live) { live[choices.size() - 1] = v; *nlive = choices.size(); }
        return v;
    }
    int in(int lo, int hi) { return lo >= hi ? lo : lo + int(raw(u64(hi - lo))); }
    bool chance(double p) { return raw(999999) >= u64((1.0 - p) * 1000000.0); }
    bool coin() { return raw(1) == 1; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[raw(v.size() - 1)]; }
    int weighted(std::initializer_list<int> w) {
        u64 sum = 0; for (int x : w) sum += x;
        u64 r = raw(sum - 1); int i = 0;
        for (int x : w) { if (r < u64(x)) return i; r -= x; i++; }
        return 0;
    }
    // Uniform real in [0,1)
    double unit() { return raw((1ULL << 40) - 1) * (1.0 / double(1ULL << 40)); }
    // Unit real with corner values mixed in
    double unit_c() {
        switch (weighted({ 12, 1, 1, 1, 1, 1 })) {
            case 1: return 0.0;
            case 2: return 1.0 - 1.0 / 9007199254740992.0;
            case 3: return 0.5;
            case 4: return 1e-9 * unit();
            case 5: return 1.0 - 1e-9 * unit() - 1e-12;
            default: return unit();
        }
    }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    // Log-uniform
    double logreal(double lo, double hi) { return std::exp(real(std::log(lo), std::log(hi))); }
    // Small "nice" number (multiple of 1/8) or arbitrary
    double nice(double lo, double hi) {
        if (coin()) { return real(lo, hi); }
        const int a = int(std::ceil(lo * 4)), b = int(std::floor(hi * 4));
        if (a > b) return real(lo, hi);
        return in(a, b) / 4.0;
    }
    u64 seed64() { return raw((1ULL << 53) - 1); }

    void label(const std::string& l) { labels[l]++; }
    u64* live = nullptr; volatile u64* nlive = nullptr;     // write-through copy of the choices (survives a crash)
    char* mirror = nullptr;     // shared copy of the description (survives a crash of the process)
    template <class... A> void note(A&&... a) {
        if (desc.tellp() >= 6000) return;
        (desc << ... << a);
        if (mirror) { const std::string s = desc.str(); const size_t n = std::min<size_t>(s.size(), 8000); memcpy(mirror, s.data(), n); mirror[n] = 0; }
    }
    void check(bool ok, const std::string& key, const std::function<std::string()>& msg) {
        evals++;
        if (!ok) fail(key, msg());
    }
    // Raises the failure unless it is a listed known finding.
    void fail(const std::string& key, const std::string& msg) {
        if (known && known->count(key)) { if (known_hits) (*known_hits)[key]++; return; }
        throw Fail{ key, msg };
    }
};

struct Prop {
    std::string id;
    std::string rule;                       // how cases are made, what is non-trivial
    std::vector<std::string> assumptions;
    std::function<void(Ctx&)> run;
    long long quick_cases = 1000;
    long long thorough_cases = 20000;
    double quick_s = 40, thorough_s = 600;  // wall-clock caps of the search
    double case_timeout = 60;               // one case may not take longer (hang = failure)
    int workers = 8;
    std::function<void()> worker_init;      // called once in each worker process
    bool fork_each = false;                 // run each case in its own process
};

// ---------------------------------------------------------------------------------------------

struct Shared {
    volatile long long current;     // case index being executed (-1: idle)
    volatile long long last;        // last case index completed
    volatile double started;
    volatile int status;            // 0 running, 1 pass, 2 fail, 3 discard
    volatile u64 nchoices;
    char key[256];
    char msg[8192];
    char desc[8192];
    u64 choices[400016];
};

struct Outcome {
    int status = 0;                 // 1 pass 2 fail 3 discard
    std::string key, msg, desc;
    std::vector<u64> choices;
};

inline std::string json_escape(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o;
}

struct Runner {
    Prop prop;
    u64 seed = 1;
    int tier = 0;
    std::string outdir;     // where evidence and replays go
    std::string scratch_root;
    std::set<std::string> known;
    std::map<std::string, std::string> known_what;

    static void setcpy(char* dst, size_t n, const std::string& s) {
        const size_t k = std::min(n - 1, s.size());
        memcpy(dst, s.data(), k); dst[k] = 0;
    }

    Shared* make_shared() {
        void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); exit(3); }
        return static_cast<Shared*>(p);
    }

    void quiet_stdout() {
        const int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1);
        if (!getenv("PBT_VERBOSE")) dup2(fd, 2);
        close(fd);
    }

    u64 case_seed(long long i) const {
        u64 s = seed * 0x9e3779b97f4a7c15ULL + hash_str(prop.id) + u64(i) * 0xd1b54a32d192ed03ULL;
        splitmix(s); return splitmix(s);
    }

    // Executes one case in this process, publishing progress to shared memory.
    void exec(Ctx& c, Shared* sh) {
        sh->status = 0; sh->desc[0] = 0;
        c.mirror = sh->desc; c.live = (u64*)sh->choices; c.nlive = &sh->nchoices; sh->nchoices = 0;
        try {
            prop.run(c);
            sh->status = 1;
        } catch (const Discard&) {
            sh->status = 3;
        } catch (const Fail& f) {
            setcpy(sh->key, sizeof sh->key, f.key);
            setcpy(sh->msg, sizeof sh->msg, f.msg);
            sh->status = 2;
        } catch (const std::exception& e) {
            const std::string key = "uncaught-exception";
            if (known.count(key)) { sh->status = 1; return; }
            setcpy(sh->key, sizeof sh->key, key);
            setcpy(sh->msg, sizeof sh->msg, std::string("uncaught exception: ") + e.what());
            sh->status = 2;
        } catch (...) {
            setcpy(sh->key, sizeof sh->key, "uncaught-exception");
            setcpy(sh->msg, sizeof sh->msg, "uncaught exception of unknown type");
            sh->status = 2;
        }
        setcpy(sh->desc, sizeof sh->desc, c.desc.str());
        sh->nchoices = c.choices.size();
        memcpy((void*)sh->choices, c.choices.data(), c.choices.size() * sizeof(u64));
    }

    // Run a given choice list in a child process.
    Outcome run_forked(const std::vector<u64>* choices, long long index, Shared* sh, double timeout) {
        sh->status = 0; sh->nchoices = 0; sh->key[0] = sh->msg[0] = sh->desc[0] = 0;
        fflush(stdout); fflush(stderr);
        const pid_t pid = fork();
        if (pid == 0) {
            setpgid(0, 0);
            quiet_stdout();
            if (prop.worker_init) prop.worker_init();
            Ctx c; c.tier = tier; c.known = &known;
            std::map<std::string,long long> kh; c.known_hits = &kh;
            c.scratch = scratch_root + "/f" + std::to_string(getpid());
            mkdir(c.scratch.c_str(), 0700);
            if (choices) { c.replaying = true; c.replay = *choices; }
            else c.state = case_seed(index);
            exec(c, sh);
            _exit(0);
        }
        const double t0 = now();
        int st = 0; bool timed_out = false;
        for (;;) {
            const pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) break;
            if (now() - t0 > timeout) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); timed_out = true; break; }
            usleep(now() - t0 < 0.05 ? 300 : 2000);
        }
        kill(-pid, SIGKILL);
        rm_scratch(scratch_root + "/f" + std::to_string(pid));
        Outcome o;
        o.status = sh->status;
        if (o.status != 0) {
            o.key = sh->key; o.msg = sh->msg; o.desc = sh->desc;
            o.choices.assign(sh->choices, sh->choices + sh->nchoices);
        } else {
            o.status = 2; o.desc = sh->desc;
            o.choices.assign(sh->choices, sh->choices + sh->nchoices);
            if (o.choices.empty() && choices) o.choices = *choices;
            if (timed_out) { o.key = "hang"; o.msg = "case did not finish within the time limit"; }
            else if (WIFSIGNALED(st)) { o.key = "crash"; o.msg = std::string("process died: ") + strsignal(WTERMSIG(st)); }
            else { o.key = "crash"; o.msg = "process exited with code " + std::to_string(WEXITSTATUS(st)) + " (sanitizer report or abnormal exit)"; }
        }
        return o;
    }

    static void rm_scratch(const std::string& d) {
        if (d.find("/pbt-scratch") == std::string::npos) return;
        const std::string cmd = "rm -rf -- '" + d + "'";
        if (access(d.c_str(), F_OK) == 0) { if (system(cmd.c_str())) {} }
    }

    struct WorkerStats {
        long long evaluations = 0, discards = 0, evals = 0;
        std::set<u64> nontrivial;
        std::map<std::string, long long> labels, known_hits;
        std::vector<std::string> samples;
    };

    std::vector<u64> shrink(std::vector<u64> best, std::string& key, std::string& msg, std::string& desc, Shared* sh, double budget) {
        const double t_end = now() + budget;
        long long attempts = 0;
        auto attempt = [&](const std::vector<u64>& cand) -> bool {
            if (now() > t_end) return false;
            attempts++;
            Outcome o = run_forked(&cand, 0, sh, std::min(prop.case_timeout, 20.0));
            if (o.status == 2 && o.key == key) {
                std::vector<u64> n = o.choices.empty() ? cand : o.choices;
                // Accept only if simpler
                if (n.size() < best.size() || (n.size() == best.size() && n < best)) {
                    best = n; msg = o.msg; if (!o.desc.empty()) desc = o.desc; return true;
                }
            }
            return false;
        };
        bool progress = true;
        while (progress && now() < t_end) {
            progress = false;
            // Truncate
            for (size_t n = best.size() / 2; n > 0 && now() < t_end; n /= 2) {
                while (best.size() > n) {
                    std::vector<u64> c(best.begin(), best.end() - n);
                    if (!attempt(c)) break; progress = true;
                }
            }
            // Delete chunks
            for (size_t n = std::max<size_t>(1, std::min<size_t>(best.size() / 2, 64)); n > 0 && now() < t_end; n /= 2) {
                for (size_t i = best.size(); i-- > 0 && now() < t_end;) {
                    if (i + n > best.size()) continue;
                    std::vector<u64> c = best; c.erase(c.begin() + i, c.begin() + i + n);
                    if (attempt(c)) progress = true;
                }
            }
            // Zero chunks, then minimise values
            for (size_t n = 16; n > 0 && now() < t_end; n /= 2) {
                for (size_t i = 0; i + n <= best.size() && now() < t_end; i += n) {
                    bool any = false; for (size_t k = 0; k < n; k++) any |= best[i + k] != 0;
                    if (!any) continue;
                    std::vector<u64> c = best; std::fill(c.begin() + i, c.begin() + i + n, 0);
                    if (attempt(c)) progress = true;
                }
            }
            for (size_t i = 0; i < best.size() && now() < t_end; i++) {
                u64 lo = 0;
                while (i < best.size() && best[i] > lo && now() < t_end) {
                    const u64 mid = lo + (best[i] - lo) / 2;
                    if (mid == best[i]) break;
                    std::vector<u64> c = best; c[i] = mid;
                    if (attempt(c)) progress = true; else { if (mid + 1 > best[i]) break; lo = mid + 1; if (best[i] - lo > (1ULL << 20)) break; }
                }
            }
        }
        return best;
    }

    int replay_file(const std::string& path) {
        FILE* f = fopen(path.c_str(), "r");
        if (!f) { fprintf(stderr, "cannot open %s\n", path.c_str()); return 3; }
        std::vector<u64> ch; long long index = -1; u64 sd = 0;
        char line[1 << 16];
        while (fgets(line, sizeof line, f)) {
            if (sscanf(line, "case %lld seed %lu", &index, (unsigned long*)&sd) == 2) continue;
            long long a, b, e;
            if (sscanf(line, "sequence %lld %lld %lld seed %lu", &a, &b, &e, (unsigned long*)&sd) == 4) {
                fclose(f); seed = sd;
                const Outcome o = run_sequence(a, b, e, 120);
                printf("%s\nkey=%s\n%s\n%s\n", o.status == 2 ? "FAILS" : "PASSES", o.key.c_str(), o.msg.c_str(), o.desc.c_str());
                return o.status == 2 ? 1 : 0;
            }
            if (!strncmp(line, "choices", 7)) {
                u64 v; while (fscanf(f, "%lu", (unsigned long*)&v) == 1) ch.push_back(v);
            }
        }
        fclose(f);
        Shared* sh = make_shared();
        if (sd) seed = sd;
        Outcome o = ch.empty() && index >= 0 ? run_forked(nullptr, index, sh, prop.case_timeout) : run_forked(&ch, 0, sh, prop.case_timeout);
        printf("%s\nkey=%s\n%s\n%s\n", o.status == 2 ? "FAILS" : o.status == 3 ? "DISCARDED" : "PASSES", o.key.c_str(), o.msg.c_str(), o.desc.c_str());
        return o.status == 2 ? 1 : 0;
    }

    // Worker process main loop
    void worker(int w, int W, long long N, double deadline, Shared* sh, const std::string& statfile, long long first) {
        quiet_stdout();
        if (prop.worker_init) prop.worker_init();
        WorkerStats S;
        const std::string scratch = scratch_root + "/w" + std::to_string(w);
        mkdir(scratch.c_str(), 0700);
        bool failed = false;
        for (long long i = first; i < N; i += W) {
            if (now() > deadline) break;
            sh->started = now();
            sh->current = i;
            Ctx c; c.tier = tier; c.known = &known; c.known_hits = &S.known_hits; c.scratch = scratch;
            c.state = case_seed(i);
            exec(c, sh);
            const int st = sh->status;
            sh->last = i;
            S.evals += c.evals;
            if (st == 2) { failed = true; break; }
            if (st == 3) { S.discards++; continue; }
            S.evaluations++;
            for (auto& l : c.labels) S.labels[l.first] += l.second;
            if (c.nontrivial) {
                u64 h = 1469598103934665603ULL;
                for (u64 v : c.choices) { h ^= v + 0x9e37; h *= 1099511628211ULL; }
                S.nontrivial.insert(h);
                if (S.samples.size() < 2) S.samples.push_back(c.desc.str().substr(0, 1200));
            }
        }
        FILE* f = fopen(statfile.c_str(), "w");
        if (f) {
            fprintf(f, "E %lld\nD %lld\nO %lld\n", S.evaluations, S.discards, S.evals);
            for (auto& l : S.labels) fprintf(f, "L %lld %s\n", l.second, l.first.c_str());
            for (auto& l : S.known_hits) fprintf(f, "K %lld %s\n", l.second, l.first.c_str());
            for (u64 h : S.nontrivial) fprintf(f, "N %lu\n", (unsigned long)h);
            for (auto& s : S.samples) fprintf(f, "S %s\n", json_escape(s).c_str());
            fclose(f);
        }
        if (!failed) { sh->current = -1; }
        _exit(failed ? 7 : 0);
    }

    int main_loop() {
        const double t0 = now();
        const long long N = tier ? prop.thorough_cases : prop.quick_cases;
        const double cap = tier ? prop.thorough_s : prop.quick_s;
        const int W = prop.workers;
        const double deadline = t0 + cap;
        std::vector<Shared*> sh(W);
        std::vector<pid_t> pid(W, -1);
        std::vector<std::string> stat(W);
        std::vector<long long> first_case(W);
        for (int w = 0; w < W; w++) { sh[w] = make_shared(); first_case[w] = w; }
        WorkerStats S;
        int rc = 0; std::string viol;
        for (int round = 0; round < 6; round++) {
        fflush(stdout); fflush(stderr);
        for (int w = 0; w < W; w++) {
            sh[w]->current = first_case[w]; sh[w]->started = now(); sh[w]->status = 0; sh[w]->last = first_case[w] - W;
            stat[w] = scratch_root + "/stat" + std::to_string(w) + "-" + std::to_string(round);
            const pid_t p = fork();
            if (p == 0) { setpgid(0, 0); worker(w, W, N, deadline, sh[w], stat[w], first_case[w]); }
            pid[w] = p;
        }
        long long fail_index = -1; std::string why; bool hang = false; int failw = -1;
        int alive = W;
        while (alive > 0) {
            bool any = false;
            for (int w = 0; w < W; w++) {
                if (pid[w] < 0) continue;
                int st; const pid_t r = waitpid(pid[w], &st, WNOHANG);
                if (r == pid[w]) {
                    kill(-pid[w], SIGKILL);
                    pid[w] = -1; alive--; any = true;
                    const bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
                    if (!ok && (fail_index < 0 || sh[w]->current < fail_index)) {
                        fail_index = sh[w]->current; failw = w; hang = false;
                    }
                } else if (sh[w]->current >= 0 && now() - sh[w]->started > prop.case_timeout) {
                    kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL);
                    waitpid(pid[w], &st, 0); pid[w] = -1; alive--; any = true;
                    if (fail_index < 0) { fail_index = sh[w]->current; failw = w; hang = true; }
                }
            }
            if (fail_index >= 0) {
                for (int w = 0; w < W; w++) if (pid[w] > 0) { kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); int st; waitpid(pid[w], &st, 0); pid[w] = -1; alive--; }
            }
            if (!any) usleep(3000);
        }
        // Collect statistics
        for (int w = 0; w < W; w++) {
            FILE* f = fopen(stat[w].c_str(), "r"); if (!f) continue;
            static char buf[1 << 16];
            while (fgets(buf, sizeof buf, f)) {
                size_t n = strlen(buf); if (n && buf[n - 1] == '\n') buf[--n] = 0;
                const char* a = buf + 2;
                if (buf[0] == 'E') S.evaluations += atoll(a);
                else if (buf[0] == 'D') S.discards += atoll(a);
                else if (buf[0] == 'O') S.evals += atoll(a);
                else if (buf[0] == 'N') S.nontrivial.insert(strtoull(a, nullptr, 10));
                else if (buf[0] == 'S') S.samples.push_back(a);
                else if (buf[0] == 'L' || buf[0] == 'K') {
                    char* e; const long long v = strtoll(a, &e, 10); while (*e == ' ') e++;
                    (buf[0] == 'L' ? S.labels : S.known_hits)[e] += v;
                }
            }
            fclose(f);
        }
        if (fail_index >= 0) {
            // Reproduce deterministically, shrink, confirm three times.
            Shared* s2 = make_shared();
            Outcome o = run_forked(nullptr, fail_index, s2, prop.case_timeout);
            int repro = 0; Outcome first = o;
            if (failw >= 0 && sh[failw]->status == 2) { first.key = sh[failw]->key; first.msg = sh[failw]->msg; first.desc = sh[failw]->desc; }
            if (o.status == 2) {
                first = o;
                for (int k = 0; k < 3; k++) {
                    Outcome q = o.choices.empty() ? run_forked(nullptr, fail_index, s2, prop.case_timeout) : run_forked(&o.choices, 0, s2, prop.case_timeout);
                    if (q.status == 2) repro++;
                }
            }
            if (repro == 3) {
                std::string key = o.key, msg = o.msg, desc = o.desc;
                std::vector<u64> best = o.choices;
                if (!best.empty()) best = shrink(best, key, msg, desc, s2, tier ? 90 : 40);
                const std::string rp = outdir + "/replays/" + prop.id + "-" + std::to_string(seed) + "-" + std::to_string(fail_index) + ".replay";
                mkdir((outdir + "/replays").c_str(), 0755);
                FILE* f = fopen(rp.c_str(), "w");
                if (f) {
                    fprintf(f, "property %s\nkey %s\ncase %lld seed %lu\n", prop.id.c_str(), key.c_str(), fail_index, (unsigned long)seed);
                    std::string m = msg; for (char& ch : m) if (ch == '\n') ch = ' ';
                    fprintf(f, "message %s\ninput\n%s\nendinput\nchoices\n", m.c_str(), desc.c_str());
                    for (u64 v : best) fprintf(f, "%lu\n", (unsigned long)v);
                    fclose(f);
                }
                printf("failure key=%s case=%lld\n%s\ninput:\n%s\n", key.c_str(), fail_index, msg.c_str(), desc.c_str());
                viol = rp; rc = 1;
            } else {
                // Not reproducible in isolation: it may depend on the schedule or on what earlier cases left behind.
                printf("NOTE: a failure did not reproduce 3/3 (repro=%d key=%s msg=%s)\n", repro, first.key.c_str(), first.msg.c_str());
                rc = unreproducible(first, fail_index, s2, viol);
                if (rc == 0 && failw >= 0) rc = sequence(first, first_case[failw], W, fail_index, viol);
                if (rc == 0) {
                    // dismissed: continue the search behind the cases already tried
                    for (int w = 0; w < W; w++) first_case[w] = (w == failw ? fail_index : sh[w]->last) + W;
                    if (now() < deadline) continue;
                }
            }
        }
        break;
        }
        write_evidence(S, now() - t0, rc);
        for (auto& k : S.known_hits) {
            printf("KNOWN-FINDING: property=%s %s (%s; %lld cases)\n", prop.id.c_str(), k.first.c_str(), known_what[k.first].c_str(), k.second);
        }
        printf("%s %s seed=%lu: %lld cases (%lld discarded), %zu distinct non-trivial, %lld oracle checks, %.1fs\n",
            prop.id.c_str(), tier ? "thorough" : "quick", (unsigned long)seed, S.evaluations, S.discards, S.nontrivial.size(), S.evals, now() - t0);
        if (rc == 1) printf("VIOLATION property=%s replay=%s\n", prop.id.c_str(), viol.c_str());
        fflush(stdout);
        return rc;
    }

    // A failure that depends on earlier cases of the same process: re-run the worker's cases in order in a fresh process.
    Outcome run_sequence(long long from, long long step, long long to, double limit) {
        Shared* s2 = make_shared();
        s2->status = 0; s2->current = -1;
        fflush(stdout);
        const pid_t pid = fork();
        if (pid == 0) {
            setpgid(0, 0); quiet_stdout();
            if (prop.worker_init) prop.worker_init();
            const std::string scratch = scratch_root + "/seq" + std::to_string(getpid());
            mkdir(scratch.c_str(), 0700);
            for (long long i = from; i <= to; i += step) {
                Ctx c; c.tier = tier; c.known = &known; std::map<std::string, long long> kh; c.known_hits = &kh; c.scratch = scratch;
                c.state = case_seed(i); s2->current = i;
                exec(c, s2);
                if (s2->status == 2) _exit(7);
            }
            _exit(0);
        }
        const double t0 = now(); int st = 0; bool to_ = false;
        while (waitpid(pid, &st, WNOHANG) != pid) { if (now() - t0 > limit) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); to_ = true; break; } usleep(3000); }
        kill(-pid, SIGKILL);
        rm_scratch(scratch_root + "/seq" + std::to_string(pid));
        Outcome o;
        if (!to_ && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            o.status = 2; o.desc = s2->desc;
            if (s2->status == 2) { o.key = s2->key; o.msg = s2->msg; } else { o.key = "crash"; o.msg = "process died in the sequence of cases"; }
        }
        munmap(s2, sizeof(Shared));
        return o;
    }
    int sequence(const Outcome& first, long long from, long long W, long long index, std::string& viol) {
        if (first.key == "hang") return 0;
        const double t0 = now(); Outcome o; int hits = 0;
        for (int k = 0; k < 4 && hits < 2 && now() - t0 < 120; k++) { Outcome q = run_sequence(from, W, index, 60); if (q.status == 2) { hits++; o = q; } }
        printf("NOTE: the worker's sequence of cases failed again in %d re-runs\n", hits);
        if (hits < 2) return 0;
        // shorten the sequence from the front
        long long lo = from;
        for (long long len = (index - from) / W / 2; len >= 1 && now() - t0 < 160;) {
            const long long f = lo + len * W;
            if (f < index && run_sequence(f, W, index, 60).status == 2) lo = f; else len /= 2;
        }
        const std::string rp = outdir + "/replays/" + prop.id + "-" + std::to_string(seed) + "-" + std::to_string(index) + ".replay";
        mkdir((outdir + "/replays").c_str(), 0755);
        FILE* f = fopen(rp.c_str(), "w");
        if (f) { fprintf(f, "property %s\nkey %s\nsequence %lld %lld %lld seed %lu\nmessage %s\ninput of the last case\n%s\nendinput\n", prop.id.c_str(), o.key.c_str(), lo, W, index, (unsigned long)seed, o.msg.c_str(), o.desc.c_str()); fclose(f); }
        printf("failure key=%s after the sequence of cases %lld..%lld step %lld\n%s\ninput of the last case:\n%s\n", o.key.c_str(), lo, index, W, o.msg.c_str(), o.desc.c_str());
        viol = rp;
        return 1;
    }

    // A schedule-dependent failure: re-run the case many times; it counts if it recurs at least twice.
    int unreproducible(const Outcome& first, long long index, Shared* s2, std::string& viol) {
        int hits = 0, runs = 0; Outcome last;
        const double t_end = now() + 60;
        while (runs < 200 && now() < t_end && hits < 3) {
            Outcome q = run_forked(nullptr, index, s2, prop.case_timeout); runs++;
            if (q.status == 2 && q.key == first.key) { hits++; last = q; }
        }
        printf("NOTE: schedule-dependent failure recurred in %d of %d re-runs\n", hits, runs);
        if (hits < 2) return 0;
        const std::string rp = outdir + "/replays/" + prop.id + "-" + std::to_string(seed) + "-" + std::to_string(index) + ".replay";
        mkdir((outdir + "/replays").c_str(), 0755);
        FILE* f = fopen(rp.c_str(), "w");
        if (f) {
            fprintf(f, "property %s\nkey %s\ncase %lld seed %lu\nschedule-dependent recurred %d/%d\ninput\n%s\nendinput\nchoices\n", prop.id.c_str(), last.key.c_str(), index, (unsigned long)seed, hits, runs, last.desc.c_str());
            for (u64 v : last.choices) fprintf(f, "%lu\n", (unsigned long)v);
            fclose(f);
        }
        printf("failure key=%s case=%lld (schedule-dependent)\n%s\ninput:\n%s\n", last.key.c_str(), index, last.msg.c_str(), last.desc.c_str());
        viol = rp;
        return 1;
    }

    void write_evidence(const WorkerStats& S, double wall, int violations) {
        mkdir((outdir + "/evidence").c_str(), 0755);
        FILE* f = fopen((outdir + "/evidence/" + prop.id + ".json").c_str(), "w");
        if (!f) { perror("evidence"); return; }
        fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %lu,\n \"level\": \"exploration\",\n", prop.id.c_str(), tier ? "thorough" : "quick", (unsigned long)seed);
        fprintf(f, " \"coverage\": {\n  \"evaluations\": %lld,\n  \"distinct_nontrivial\": %zu,\n  \"discarded\": %lld,\n  \"oracle_checks\": %lld,\n", S.evaluations, S.nontrivial.size(), S.discards, S.evals);
        fprintf(f, "  \"rule\": \"%s\",\n  \"labels\": {", json_escape(prop.rule).c_str());
        bool first = true;
        for (auto& l : S.labels) { fprintf(f, "%s\"%s\": %lld", first ? "" : ", ", json_escape(l.first).c_str(), l.second); first = false; }
        fprintf(f, "},\n  \"known_findings_hit\": {");
        first = true;
        for (auto& l : S.known_hits) { fprintf(f, "%s\"%s\": %lld", first ? "" : ", ", json_escape(l.first).c_str(), l.second); first = false; }
        fprintf(f, "},\n  \"samples\": [");
        first = true;
        int k = 0;
        for (auto& s : S.samples) { if (k++ >= 6) break; fprintf(f, "%s\n   \"%s\"", first ? "" : ",", s.c_str()); first = false; }
        fprintf(f, "]\n },\n \"assumptions\": [");
        first = true;
        for (auto& a : prop.assumptions) { fprintf(f, "%s\"%s\"", first ? "" : ", ", json_escape(a).c_str()); first = false; }
        fprintf(f, "],\n \"wall_s\": %.3f,\n \"violations\": %d\n}\n", wall, violations);
        fclose(f);
    }
};

// Usage: prog --tier quick|thorough --seed N --out DIR [--known FILE] [--replay FILE] [--cases N] [--case I]
inline int main(int argc, char** argv, Prop p) {
    Runner r; r.prop = std::move(p);
    std::string replay; long long one = -1;
    r.outdir = "/verif";
    for (int i = 1; i < argc; i++) {
        const std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--tier") r.tier = val() == "thorough";
        else if (a == "--seed") r.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--out") r.outdir = val();
        else if (a == "--replay") replay = val();
        else if (a == "--cases") { const long long n = atoll(val().c_str()); r.prop.quick_cases = r.prop.thorough_cases = n; }
        else if (a == "--secs") { const double n = atof(val().c_str()); r.prop.quick_s = r.prop.thorough_s = n; }
        else if (a == "--workers") r.prop.workers = atoi(val().c_str());
        else if (a == "--case") one = atoll(val().c_str());
        else if (a == "--known") {
            FILE* f = fopen(val().c_str(), "r"); static char b[4096];
            if (f) { while (fgets(b, sizeof b, f)) { // "<key>\t<what>"
                std::string l = b; if (!l.empty() && l.back() == '\n') l.pop_back();
                const auto t = l.find('\t'); if (t == std::string::npos) continue;
                r.known.insert(l.substr(0, t)); r.known_what[l.substr(0, t)] = l.substr(t + 1);
            } fclose(f); }
        }
    }
    const char* base = getenv("TMPDIR");
    char tmpl[512]; snprintf(tmpl, sizeof tmpl, "%s/pbt-scratch-XXXXXX", base ? base : "/tmp");
    if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; }
    r.scratch_root = tmpl;
    int rc;
    if (!replay.empty()) rc = r.replay_file(replay);
    else if (one >= 0) {
        Shared* s = r.make_shared(); Outcome o = r.run_forked(nullptr, one, s, r.prop.case_timeout);
        printf("status=%d key=%s\n%s\n%s\n", o.status, o.key.c_str(), o.msg.c_str(), o.desc.c_str()); rc = o.status == 2;
    }
    else rc = r.main_loop();
    Runner::rm_scratch(r.scratch_root);
    return rc;
}

} // namespace pbt
