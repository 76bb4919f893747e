// P10: texture lookups against an own image model; files produced by own encoders.
#include "lmgen.h"
#include "imgio.h"
#include <lm/texture.h>
using namespace lmgen;

namespace {
int g_n = 0;
void constant(Ctx& c) {
    const Vec3 col = gen_color(c, 0, 4); const bool al = c.coin(); const double a = c.unit_c();
    Json p = { {"color", J(col)} }; if (al) p["alpha"] = a;
    auto* t = get<Texture>(asset("tex", "texture::constant", p));
    c.note("constant ", p.dump());
    c.check(t->size().w == 1 && t->size().h == 1, "size", [&] { return std::string("size of a constant texture"); });
    c.check(t->has_alpha() == al && (!al || t->eval_alpha(Vec2(c.real(-3, 3), c.unit())) == a), "const-alpha", [&] { return "alpha of " + p.dump(); });
    for (int k = 0; k < 4; k++) { const Vec2 q(c.real(-9, 9), c.real(-9, 9)); c.check(t->eval(q) == col && t->eval_by_pixel_coords(0, 0) == col, "const", [&] { return "value at " + S(q) + " of " + p.dump(); }); }
    c.label("constant"); c.nontrivial = true;
}
void missing(Ctx& c) {
    // unreadable or undecodable files raise an error
    Json p = { {"path", c.scratch + "/none.png"} };
    if (c.coin()) { imgio::Bytes b; const int n = c.in(0, 60); for (int i = 0; i < n; i++) b.push_back((unsigned char)c.raw(255)); if (c.coin()) { imgio::Bytes g = imgio::png(3, 3, 3, imgio::Bytes(27, 7)); g.resize(c.in(0, int(g.size()) - 30)); b = g; } p["path"] = c.scratch + "/bad.png"; imgio::write(c.scratch + "/bad.png", b); if (b.size() > 2 && b[0] == 'P' && (b[1] == '5' || b[1] == '6')) throw pbt::Discard{}; if (b.size() > 17 && b[0] != 0x89) throw pbt::Discard{}; c.note("file of ", b.size(), " bytes"); }
    else c.note("missing file");
    bool ok = false; try { ok = lm::assets()->load_asset("tex", "texture::bitmap", p) != nullptr; } catch (const std::exception&) {}
    c.check(!ok, "bad-file", [&] { return "texture was created from " + p.dump(); });
    c.label("bad-file");
}
void bitmap(Ctx& c) {
    const int w = c.chance(.2) ? c.in(1, 2) : c.in(1, 19), h = c.chance(.2) ? c.in(1, 2) : c.in(1, 19); const int fmt = c.in(0, 3);
    const int ch = fmt == 0 ? c.weighted({ 0, 1, 1, 4, 3 }) : fmt == 1 ? c.pick(std::vector<int>{ 3, 3, 1 }) : fmt == 2 ? c.pick(std::vector<int>{ 3, 4, 4 }) : 3;
    pbt::Rand r(c.seed64()); imgio::Bytes px(size_t(w) * h * (fmt == 3 ? 4 : ch)); for (auto& x : px) x = (unsigned char)r.below(256);
    if (fmt == 3) for (int i = 0; i < w * h; i++) { px[4 * i + 3] = (unsigned char)(r.below(8) ? 110 + r.below(40) : 0); px[4 * i] = (unsigned char)(128 + r.below(128)); }  // first byte >=128: not mistaken for a run-length header
    const std::string path = c.scratch + "/t" + std::to_string(g_n++ % 4) + (fmt == 0 ? ".png" : fmt == 1 ? ".ppm" : fmt == 2 ? ".tga" : ".hdr");
    imgio::write(path, fmt == 0 ? imgio::png(w, h, ch, px) : fmt == 1 ? imgio::pnm(w, h, ch, px) : fmt == 2 ? imgio::tga(w, h, ch, px) : imgio::hdr(w, h, px));
    Json p = { {"path", path} }; bool flip = true; if (c.coin()) { flip = c.coin(); p["flip"] = flip; }
    if (c.chance(.1)) { // back slashes are accepted as separators
        std::string q = path; q[q.rfind('/')] = '\\'; p["path"] = q; }
    auto* t = get<Texture>(asset("tex", "texture::bitmap", p));
    unlink(path.c_str());
    const char* names[] = { "png", "pnm", "tga", "hdr" };
    const std::string txt = std::to_string(w) + "x" + std::to_string(h) + " " + names[fmt] + " with " + std::to_string(ch) + " channels flip=" + std::to_string(flip);
    c.note(txt);
    const auto ctx = [&](const std::string& s) { return s + " [" + txt + "]"; };
    // expected value of channel k at column x, row y counted in texture coordinates
    const auto at = [&](int x, int y, int k) -> double {
        const int fy = flip ? h - 1 - y : y;
        if (fmt == 3) { const auto* q = &px[4 * (size_t(fy) * w + x)]; return q[3] ? std::ldexp(double(q[k]), int(q[3]) - 136) : 0; }
        const double v = px[(size_t(fy) * w + x) * ch + k] / 255.0; return (ch % 2 == 0 && k == ch - 1) ? v : std::pow(v, 2.2);
    };
    const auto col = [&](int x, int y) { return ch >= 3 ? Vec3(at(x, y, 0), at(x, y, 1), at(x, y, 2)) : Vec3(at(x, y, 0)); };
    c.check(t->size().w == w && t->size().h == h, "size", [&] { return ctx("size " + std::to_string(t->size().w) + "x" + std::to_string(t->size().h)); });
    const bool alpha = ch == 4 || ch == 2;
    c.check(t->has_alpha() == alpha, "has-alpha", [&] { return ctx("has_alpha=" + std::to_string(t->has_alpha())); });
    const auto b = t->buffer();
    c.check(b.w == w && b.h == h && b.c == ch && b.data, "buffer", [&] { return ctx("buffer " + std::to_string(b.w) + "x" + std::to_string(b.h) + "x" + std::to_string(b.c)); });
    const double tol = 1e-6;
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
        const Vec3 e = col(x, y), a = t->eval_by_pixel_coords(x, y), m = t->eval(Vec2((x + .5) / w, (y + .5) / h));
        c.check(near(a, e, tol, 1e-7), "pixel", [&] { return ctx("pixel " + std::to_string(x) + "," + std::to_string(y) + " is " + S(a) + ", the file has " + S(e)); });
        c.check(m == a, "pixel-vs-coordinate", [&] { return ctx("pixel " + std::to_string(x) + "," + std::to_string(y) + " is " + S(a) + " by pixel and " + S(m) + " by texture coordinate"); });
        for (int k = 0; k < ch; k++) c.check(near(b.data[(size_t(y) * w + x) * ch + k], at(x, y, k), tol, 1e-7), "buffer", [&] { return ctx("buffer content at " + std::to_string(x) + "," + std::to_string(y)); });
    }
    for (int k = 0; k < 40; k++) {
        Vec2 q;
        for (int i = 0; i < 2; i++) {
            const int n = i ? h : w;
            switch (c.weighted({ 5, 4, 3, 2, 1 })) {
                case 0: q[i] = c.unit_c(); break;
                case 1: q[i] = c.real(-4, 4); break;
                case 2: q[i] = c.in(-3 * n, 3 * n) / double(n) + c.in(-1, 1) * 1e-9; break;  // texel edges
                case 3: q[i] = c.in(-4, 4); break;
                default: q[i] = (c.coin() ? 1 : -1) * c.logreal(1e-20, 1e7);
            }
        }
        const Vec3 v = t->eval(q); const double a = alpha ? t->eval_alpha(q) : 0; bool ok = false, oka = !alpha;
        // texels whose (closed) cell contains the coordinate under repetition
        for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
            const auto inside = [](LD u, int i, int n) { const LD f = (u - std::floor(u)) * n, tol = 1e-12L * (1 + std::fabs(u)) * n; for (int s : { -n, 0, n }) if (f >= i + s - tol && f <= i + 1 + s + tol) return true; return false; };
            if (!inside(q.x, x, w) || !inside(q.y, y, h)) continue;
            if (near(v, col(x, y), tol, 1e-7)) ok = true;
            if (alpha && near(a, at(x, y, ch - 1), tol, 1e-7)) oka = true;
        }
        c.check(ok, "lookup", [&] { return ctx("value " + S(v) + " at " + S(q) + " is not the addressed texel"); });
        c.check(oka, "lookup-alpha", [&] { return ctx("alpha " + S(a) + " at " + S(q) + " is not the addressed texel's"); });
    }
    c.label(names[fmt]); c.label("channels-" + std::to_string(ch)); if (w * h > 1) c.nontrivial = true;
}
void run(Ctx& c) {
    lm::reset();
    switch (c.weighted({ 12, 1, 1 })) { case 1: constant(c); break; case 2: missing(c); break; default: bitmap(c); }
}
}
int main(int argc, char** argv) {
    pbt::Prop p; p.id = "P10";
    p.rule = "case = one generated image file (PNG with 1-4 channels, PNM, TGA, RGBE), loaded with or without flipping, every texel compared by pixel and by texture coordinate and in the buffer, plus 40 coordinates (unit, negative, large, on texel edges); or a constant texture, or an unreadable file. Non-trivial: more than one texel (or a constant texture).";
    p.assumptions = { "8-bit files are linearised with exponent 2.2, alpha linearly", "coordinates within 1e-12 of a texel edge may address either texel; finite coordinates up to 1e7" };
    p.run = run; p.worker_init = init_lm; p.quick_cases = 500000; p.thorough_cases = 30000000; p.quick_s = 20; p.thorough_s = 300;
    return pbt::main(argc, argv, p);
}
