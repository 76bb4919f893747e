// P15: saved images decoded by own decoders and compared with the film.
#include "lmgen.h"
#include "imgio.h"
#include <lm/film.h>
#include <lm/texture.h>
#include <sys/stat.h>
using namespace lmgen;

namespace {
void run(Ctx& c) {
    lm::reset();
    const int w = c.chance(.15) ? c.in(100, 300) : c.in(1, 24), h = c.chance(.15) ? c.in(13, 130) : c.in(1, 12), n = w * h; const int fmt = c.in(0, 2);
    auto* f = get<Film>(asset("film", "film::bitmap", { {"w", w}, {"h", h} }));
    const int style = c.in(0, 4); pbt::Rand r(c.seed64()); std::vector<Vec3> v(n);
    const auto val = [&]() -> double {
        switch (style) {
            case 0: return r.u() * 1.2;
            case 1: return r.below(256) / 255.0;
            case 2: return std::exp((r.u() - .5) * 40);
            case 3: { const double t[] = { 0, 1, 1e-40, 1e-20, 1e20, 1e30, .5, 255, 3e9 }; return t[r.below(9)]; }
            default: return r.below(3) ? .25 : r.u();    // runs of equal values
        }
    };
    for (int i = 0; i < n; i++) { v[i] = Vec3(val(), val(), val()); if (style == 4 && i && r.below(8)) v[i] = v[i - 1]; if (fmt != 1 && style == 2 && !r.below(6)) v[i] = -v[i]; f->set_pixel(i % w, i / w, v[i]); }
    const char* ext[] = { ".png", ".hdr", ".pfm" };
    std::string dir = c.scratch; const int how = c.weighted({ 8, 2, 1, 1, 1, 1, 1 }); bool rel = false; const std::string base = "img" + std::to_string(c.in(0, 3));
    const auto same = [&](const std::string& when) { const auto b = f->buffer(); for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) c.check(b.w == w && b.h == h && b.data[3 * i + k] == v[i][k], "film-changed", [&] { return "film changed by " + when; }); };
    if (how >= 2 && how <= 5) {
        // failures are reported
        std::string p; bool ok = false;
        if (how == 2) { const std::vector<std::string> e = { "", ".", ".txt", ".exr", ".jp", ".pn", ".pngx", ".hd" }; p = dir + "/bad" + c.pick(e); }
        else if (how == 3) { mkdir((dir + "/d" + ext[fmt]).c_str(), 0700); p = dir + "/d" + ext[fmt]; }
        else if (how == 4) { imgio::write(dir + "/file", { 1 }); p = dir + "/file/x/y" + ext[fmt]; }
        else { p = dir + "/full" + ext[fmt]; unlink(p.c_str()); if (symlink("/dev/full", p.c_str())) throw pbt::Discard{}; }
        c.note("failing save to ", p.substr(dir.size()));
        try { ok = f->save(p); } catch (const std::exception&) {}
        c.check(!ok, how == 2 ? "bad-extension" : how == 5 ? "disk-full" : "unwritable", [&] { return "saving to " + p.substr(dir.size()) + (how == 5 ? " (device without space)" : "") + " reported success"; });
        same("a failed save"); c.label("failure-" + std::to_string(how)); c.nontrivial = true; return;
    }
    std::string p = dir + "/" + base + ext[fmt];
    if (how == 1) { p = dir + "/new" + std::to_string(c.raw(1 << 20)) + "/sub dir/" + base + ext[fmt]; c.label("creates-directory"); }
 if (how == 6) { rel = true; p = std::string("img_rel") + ext[fmt]; if (c.coin()) p = "new" + std::to_string(c.raw(1 << 20)) + "/x/" + p; c.label("relative-path"); }
    if (c.chance(.2)) imgio::write(dir + "/" + base + ext[fmt], imgio::Bytes(c.in(0, 200000), 'x'));   // longer file already there
    c.note(w, "x", h, " film style ", style, " saved as ", ext[fmt]);
    const auto ctx = [&](const std::string& s) { return s + " [" + std::to_string(w) + "x" + std::to_string(h) + " " + ext[fmt] + "]"; };
    bool saved = false;
    if (rel) { char cwd[4096]; if (!getcwd(cwd, sizeof cwd) || chdir(c.scratch.c_str())) throw pbt::Discard{}; try { saved = f->save(p); } catch (const std::exception&) {} if (chdir(cwd)) _exit(77); p = c.scratch + "/" + p; }
    else saved = f->save(p);
    c.check(saved, "save", [&] { return ctx("save failed"); });
    same("save");
    const auto bytes = imgio::read(p);
    const auto im = fmt == 0 ? imgio::dec_png(bytes) : fmt == 1 ? imgio::dec_hdr(bytes) : imgio::dec_pfm(bytes);
    c.check(im.err.empty(), "format", [&] { return ctx("file cannot be decoded: " + im.err); });
    c.check(im.w == w && im.h == h && im.c == 3, "dimensions", [&] { return ctx("file is " + std::to_string(im.w) + "x" + std::to_string(im.h) + "x" + std::to_string(im.c)); });
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
        const Vec3 e = v[y * w + x]; const int row = fmt == 2 ? y : h - 1 - y; const double* q = &im.v[3 * (size_t(row) * w + x)]; const double m = std::max({ e.x, e.y, e.z });
        for (int k = 0; k < 3; k++) {
            bool ok; 
            if (fmt == 2) ok = q[k] == double(float(e[k]));
            else if (fmt == 0) { const double t = 256 * std::pow(std::max(e[k], 0.), 1 / 2.2), lo = std::min(255., std::max(0., std::floor(t - 1e-6))), hi = std::min(255., std::max(0., std::floor(t + 1e-6))); ok = q[k] == lo || q[k] == hi; }
            else ok = m < 1e-30 ? q[k] < 1e-29 : std::fabs(q[k] - e[k]) <= m / 127;
            c.check(ok, "pixel", [&] { return ctx("pixel " + std::to_string(x) + "," + std::to_string(y) + " channel " + std::to_string(k) + " with value " + S(e[k]) + " (pixel " + S(e) + ") is stored as " + S(q[k])); });
        }
    }
    // and read back as a texture (orientation of film and texture agree)
    if (fmt != 2) {
        auto* t = get<Texture>(asset("tex", "texture::bitmap", { {"path", p} }));
        for (int k = 0; k < 12; k++) {
            const int x = c.in(0, w - 1), y = c.in(0, h - 1); const Vec3 a = t->eval(Vec2((x + .5) / w, (y + .5) / h)); Vec3 e; const double* q = &im.v[3 * (size_t(h - 1 - y) * w + x)];
            for (int i = 0; i < 3; i++) e[i] = fmt == 0 ? std::pow(q[i] / 255, 2.2) : q[i];
            c.check(near(a, e, 1e-5, 1e-7), "as-texture", [&] { return ctx("pixel " + std::to_string(x) + "," + std::to_string(y) + " of the saved film reads " + S(a) + " as a texture, the file has " + S(e)); });
        }
    }
    unlink(p.c_str());
    c.label(ext[fmt]); c.label("style-" + std::to_string(style)); c.nontrivial = n > 1;
}
}
int main(int argc, char** argv) {
    pbt::Prop p; p.id = "P15";
    p.rule = "case = one film (sizes up to 300x130; random, quantised, high-dynamic-range, extreme and run-length values) saved as PNG, RGBE or PFM (absolute and relative paths, new directories), decoded by the harness's own decoders and compared pixel by pixel, and re-loaded as a texture; or a save that must fail (unknown extension, directory in the way, file in the way, full device). Non-trivial: more than one pixel, or a failing save.";
    p.assumptions = { "non-negative values up to 1e30 for RGBE, finite values", "8-bit encoding floor(256 v^(1/2.2)) clamped to 0..255; RGBE within 1/127 of the pixel's largest component" };
    p.run = run; p.worker_init = init_lm; p.quick_cases = 400000; p.thorough_cases = 20000000; p.quick_s = 20; p.thorough_s = 300;
    return pbt::main(argc, argv, p);
}
