// P13: film contents against an array model over operation histories.
#include "lmgen.h"
#include <lm/film.h>
#include <lm/parallel.h>
using namespace lmgen;

namespace {
struct M { int w, h; std::vector<Vec3> v; Film* f; };
Vec3 gen_val(Ctx& c) {
    switch (c.weighted({ 6, 2, 2, 1 })) {
        case 1: return Vec3(c.in(-8, 8), c.in(-8, 8), c.in(-8, 8));
        case 2: return Vec3(c.logreal(1e-6, 1e6), c.logreal(1e-6, 1e6), c.logreal(1e-6, 1e6));
        case 3: return Vec3(0);
        default: return gen_color(c, 0, 2);
    }
}
void run(Ctx& c) {
    lm::reset();
    std::vector<M> fs; const int nf = c.in(1, 3);
    const bool same = c.chance(.6); const bool big = c.chance(.03); const int shape = big ? c.in(0, 5) : 0; const int w0 = shape == 5 ? c.in(2000, 9000) : shape == 4 ? c.in(1, 2) : big ? c.in(20, 200) : c.in(1, 9), h0 = shape == 5 ? c.in(1, 2) : shape == 4 ? c.in(2000, 9000) : big ? c.in(20, 90) : c.in(1, 9);
    for (int i = 0; i < nf; i++) {
        M m; m.w = same || i == 0 ? w0 : c.in(1, 9); m.h = same || i == 0 ? h0 : c.in(1, 9); m.v.assign(m.w * m.h, Vec3(0));
        m.f = get<Film>(asset("film" + std::to_string(i), "film::bitmap", { {"w", m.w}, {"h", m.h} })); fs.push_back(m);
        c.note("film", i, " ", m.w, "x", m.h, "\n");
    }
    std::string last;
    const auto verify = [&] {
        for (int i = 0; i < nf; i++) {
            const auto& m = fs[i]; const auto b = m.f->buffer();
            c.check(b.w == m.w && b.h == m.h && m.f->size().w == m.w && m.f->size().h == m.h && m.f->num_pixels() == m.w * m.h && m.f->aspect() == double(m.w) / m.h, "size", [&] { return "size of film" + std::to_string(i); });
            for (int k = 0; k < m.w * m.h; k++) {
                const Vec3 a(b.data[3 * k], b.data[3 * k + 1], b.data[3 * k + 2]);
                c.check(near(a, m.v[k], 1e-11, 1e-13), "pixel", [&] { return "after " + last + ": pixel " + std::to_string(k % m.w) + "," + std::to_string(k / m.w) + " of film" + std::to_string(i) + " is " + S(a) + ", expected " + S(m.v[k]); });
            }
        }
    };
    verify();
    const int ops = c.in(1, big ? 15 : 40); if (big) c.label("big-film");
    for (int o = 0; o < ops; o++) {
        const int fi = c.in(0, nf - 1); auto& m = fs[fi]; const int x = c.in(0, m.w - 1), y = c.in(0, m.h - 1); Vec3 v = gen_val(c);
        Vec2 rp; for (int i = 0; i < 2; i++) { const int n = i ? m.h : m.w; switch (c.weighted({ 6, 3, 2, 1 })) { case 0: rp[i] = c.unit_c(); break; case 1: rp[i] = c.in(-1, n + 1) / double(n); break; case 2: rp[i] = c.real(-2, 3); break; default: rp[i] = (c.coin() ? 1 : -1) * c.logreal(1, 1e15); } }
        const auto px = [&]() -> glm::ivec2 {
            const auto q = m.f->raster_to_pixel(rp);
            for (int i = 0; i < 2; i++) {
                const int n = i ? m.h : m.w; const double s = rp[i] * n; const int e = s <= 0 ? 0 : s >= n ? n - 1 : int(std::floor(s));
                const bool edge = std::fabs(s - std::round(s)) < 1e-9;
                c.check(q[i] >= 0 && q[i] < n && (q[i] == e || (edge && std::abs(q[i] - e) <= 1)), "raster", [&] { return "raster position " + S(rp) + " maps to pixel " + std::to_string(q.x) + "," + std::to_string(q.y) + " of a " + std::to_string(m.w) + "x" + std::to_string(m.h) + " film"; });
            }
            return q;
        };
        const long long idx = c.chance(.2) ? 0 : c.chance(.1) ? c.pick(std::vector<long long>{ 65535, (1LL << 31) - 1, 1LL << 31, (1LL << 32) - 1, 1LL << 40 }) : c.in(0, 50);
        switch (c.weighted({ 4, 4, 4, 3, 3, 3, 2, 2, 1, 1 })) {
            case 0: last = "set"; c.note("set film", fi, " ", x, ",", y, " ", s6(v), "\n"); m.f->set_pixel(x, y, v); m.v[y * m.w + x] = v; break;
            case 1: last = "splat pixel"; c.note("splat film", fi, " ", x, ",", y, " ", s6(v), "\n"); m.f->splat_pixel(x, y, v); m.v[y * m.w + x] += v; break;
            case 2: { last = "splat"; const auto p = px(); c.note("splat film", fi, " ", S(rp), " ", s6(v), "\n"); m.f->splat(rp, v); m.v[p.y * m.w + p.x] += v; break; }
            case 3: { last = "average pixel"; c.note("average film", fi, " ", x, ",", y, " index ", idx, " ", s6(v), "\n"); m.f->inc_ave(x, y, idx, v); auto& q = m.v[y * m.w + x]; q = q + (v - q) / double(idx + 1); break; }
            case 4: { last = "average"; const auto p = px(); c.note("average film", fi, " ", S(rp), " index ", idx, " ", s6(v), "\n"); m.f->inc_ave(rp, idx, v); auto& q = m.v[p.y * m.w + p.x]; q = q + (v - q) / double(idx + 1); break; }
            case 5: { // running mean of a sequence from scratch
                last = "running mean"; const int n = c.in(1, 12); Vec3 sum(0); m.f->set_pixel(x, y, gen_val(c)); c.note("mean film", fi, " ", x, ",", y, " of ", n, "\n");
                for (int k = 0; k < n; k++) { const Vec3 q = gen_color(c, 0, 3); sum += q; m.f->inc_ave(x, y, k, q); }
                const auto b = m.f->buffer(); const double* q = b.data + 3 * (y * m.w + x); const Vec3 a(q[0], q[1], q[2]);
                c.check(near(a, sum / double(n), 1e-9, 1e-8), "mean", [&] { return "incremental average " + S(a) + " of " + std::to_string(n) + " values with mean " + S(sum / double(n)); }); m.v[y * m.w + x] = a;
                break; }
            case 6: { // accumulate
                const int fj = c.in(0, nf - 1); last = "accumulate"; c.note("film", fi, " += film", fj, "\n"); m.f->accum(fs[fj].f);
                if (fs[fj].w == m.w && fs[fj].h == m.h) { const auto src = fs[fj].v; for (size_t k = 0; k < src.size(); k++) m.v[k] += src[k]; } else c.label("accum-mismatch");
                break; }
            case 7: { last = "rescale"; const double s = c.chance(.2) ? 0 : c.logreal(1e-3, 1e3); c.note("rescale film", fi, " ", s, "\n"); m.f->rescale(s); for (auto& q : m.v) q *= s; break; }
            case 8: last = "clear"; c.note("clear film", fi, "\n"); m.f->clear(); for (auto& q : m.v) q = Vec3(0); break;
            default: { last = "update"; c.note("update film", fi, " ", x, ",", y, "\n"); const double s = c.real(-2, 2); m.f->update_pixel(x, y, [&](Vec3 q) { return q * s + v; }); auto& q = m.v[y * m.w + x]; q = q * s + v; }
        }
        if (c.chance(.3) || o == ops - 1) verify();
    }
    c.label(nf > 1 ? "several-films" : "one-film"); if (ops > 2) c.nontrivial = true;
}
}
int main(int argc, char** argv) {
    pbt::Prop p; p.id = "P13";
    p.rule = "case = 1-3 films of up to 9x9 (some up to 9000 pixels wide or high) pixels and a history of up to 40 operations (set, splat by pixel and raster position, incremental average, accumulate, rescale, clear, user update), all pixels compared with an array model along the way; non-trivial: more than two operations";
    p.assumptions = { "pixel coordinates given as integers are inside the film; raster positions are finite, arbitrary magnitude", "rounding allowance 1e-11 relative; positions within 1e-9 of a pixel edge may fall on either side" };
    p.run = run; p.worker_init = [] { init_lm(); lm::parallel::init("openmp", { {"num_threads", 2} }); }; p.quick_cases = 600000; p.thorough_cases = 20000000; p.quick_s = 20; p.thorough_s = 300;
    return pbt::main(argc, argv, p);
}
