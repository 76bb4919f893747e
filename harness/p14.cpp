// P14: concurrent film updates, exact-sum oracle.
#include "lmgen.h"
#include <lm/film.h>
#include <lm/parallel.h>
#include <thread>
#include <atomic>
using namespace lmgen;

namespace {
void run(Ctx& c) {
    lm::reset();
    const int w = c.in(1, 4), h = c.in(1, 4), n = w * h, T = c.in(2, 8), K = 1500 + 500 * c.in(0, 5);
    auto* f = get<Film>(asset("film", "film::bitmap", { {"w", w}, {"h", h} }));
    const int mode = c.in(0, 5); const u_int64_t seed = c.seed64(); const int hot = c.in(1, n);
    const char* names[] = { "splat-pixel", "splat-raster", "update", "mixed-add", "set", "own-pixels" };
    c.note(names[mode], " ", w, "x", h, " film, ", T, " threads x ", K, " operations on ", hot, " pixels");
    std::vector<Vec3> init(n); for (int i = 0; i < n; i++) { init[i] = Vec3(c.in(0, 9), c.in(0, 9), c.in(0, 9)); f->set_pixel(i % w, i / w, init[i]); }
    std::vector<std::vector<Vec3>> sum(T, std::vector<Vec3>(n, Vec3(0)));
    std::vector<Film*> priv(T); for (int t = 0; t < T; t++) priv[t] = get<Film>(asset("p" + std::to_string(t), "film::bitmap", { {"w", w}, {"h", h} }));
    std::atomic<int> ready{ 0 }; std::atomic<bool> go{ false };
    const auto body = [&](int t) {
        pbt::Rand r(seed + t * 7919); ready++; while (!go) {}
        for (int k = 0; k < K; k++) {
            const int i = r.below(hot), x = i % w, y = i / w; const Vec3 v(r.below(7), r.below(7), 1); const int m = mode == 3 ? r.below(4) : mode;
            switch (m) {
                case 0: f->splat_pixel(x, y, v); sum[t][i] += v; break;
                case 1: f->splat(Vec2((x + .5) / w, (y + .5) / h), v); sum[t][i] += v; break;
                case 2: f->update_pixel(x, y, [&](Vec3 q) { return q + v; }); sum[t][i] += v; break;
                case 3: if (k % 64 == 0) { priv[t]->clear(); priv[t]->splat_pixel(x, y, v); f->accum(priv[t]); } else f->splat_pixel(x, y, v); sum[t][i] += v; break;
                case 4: f->set_pixel(x, y, Vec3(double(t * K + k))); break;
                default: { const int j = i - i % T + t; if (j >= n) break; f->splat_pixel(j % w, j / w, v); sum[t][j] += v; }
            }
        }
    };
    std::vector<std::thread> th; for (int t = 0; t < T; t++) th.emplace_back(body, t);
    while (ready < T) {} go = true; for (auto& t : th) t.join();
    const auto b = f->buffer();
    for (int i = 0; i < n; i++) {
        const Vec3 a(b.data[3 * i], b.data[3 * i + 1], b.data[3 * i + 2]);
        if (mode == 4) {
            c.check(a == init[i] || (i < hot && a.x == a.y && a.x == a.z && a.x == std::floor(a.x) && a.x >= 0 && a.x < double(T) * K), "torn", [&] { return "pixel " + std::to_string(i) + " holds " + S(a) + " which no thread wrote"; });
        } else {
            Vec3 e = init[i]; for (int t = 0; t < T; t++) e += sum[t][i];
            c.check(a == e, "lost-update", [&] { return std::string(names[mode]) + ": pixel " + std::to_string(i) + " holds " + S(a) + ", the contributions add up to " + S(e); });
        }
    }
    c.label(names[mode]); c.nontrivial = hot * 4 <= T * K;
}
}
int main(int argc, char** argv) {
    pbt::Prop p; p.id = "P14";
    p.rule = "case = one film of up to 4x4 pixels, 2-8 threads released together, each performing 1500-4000 operations (splat by pixel or raster position, atomic user update, accumulate of a private film, set) on 1-16 shared pixels; contributions are small integers so that the sum is exact in any order. Non-trivial: every case (contended).";
    p.assumptions = { "schedules are those the operating system produces on the available cores under oversubscription" };
    p.run = run; p.worker_init = init_lm; p.workers = 3; p.quick_cases = 4000; p.thorough_cases = 200000; p.quick_s = 25; p.thorough_s = 300; p.case_timeout = 60;
    return pbt::main(argc, argv, p);
}
