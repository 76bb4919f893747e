// Own image encoders and decoders (no library shared with the code under test).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <stdexcept>
namespace imgio {
using Bytes = std::vector<unsigned char>;
inline void put(Bytes& o, const std::string& s) { o.insert(o.end(), s.begin(), s.end()); }
inline uint32_t crc(const unsigned char* p, size_t n) {
    uint32_t c = 0xffffffffu; for (size_t i = 0; i < n; i++) { c ^= p[i]; for (int k = 0; k < 8; k++) c = c & 1 ? 0xedb88320u ^ (c >> 1) : c >> 1; } return ~c;
}
inline void be32(Bytes& o, uint32_t v) { for (int s = 24; s >= 0; s -= 8) o.push_back((v >> s) & 255); }
inline void chunk(Bytes& o, const char* t, const Bytes& d) {
    be32(o, uint32_t(d.size())); const size_t s = o.size(); put(o, t); o.insert(o.end(), d.begin(), d.end()); be32(o, crc(&o[s], o.size() - s));
}
// 8 bit PNG, 1-4 channels, rows top to bottom, stored deflate blocks
inline Bytes png(int w, int h, int c, const Bytes& px) {
    Bytes o = { 0x89, 'P', 'N', 'G', 13, 10, 26, 10 }, ih; be32(ih, w); be32(ih, h);
    const int ct[] = { 0, 0, 4, 2, 6 }; for (int b : { 8, ct[c], 0, 0, 0 }) ih.push_back(b);
    chunk(o, "IHDR", ih);
    Bytes raw; for (int y = 0; y < h; y++) { raw.push_back(0); raw.insert(raw.end(), px.begin() + size_t(y) * w * c, px.begin() + size_t(y + 1) * w * c); }
    Bytes z = { 0x78, 1 };
    for (size_t i = 0; i < raw.size(); i += 65535) { const size_t n = std::min<size_t>(65535, raw.size() - i); z.push_back(i + n == raw.size()); z.push_back(n & 255); z.push_back(n >> 8); z.push_back(~n & 255); z.push_back((~n >> 8) & 255); z.insert(z.end(), raw.begin() + i, raw.begin() + i + n); }
    uint32_t a = 1, b = 0; for (auto x : raw) { a = (a + x) % 65521; b = (b + a) % 65521; } be32(z, (b << 16) | a);
    chunk(o, "IDAT", z); chunk(o, "IEND", {}); return o;
}
inline Bytes pnm(int w, int h, int c, const Bytes& px) { Bytes o; put(o, (c == 1 ? "P5\n" : "P6\n") + std::to_string(w) + " " + std::to_string(h) + "\n255\n"); o.insert(o.end(), px.begin(), px.end()); return o; }
// uncompressed TGA, top-left origin
inline Bytes tga(int w, int h, int c, const Bytes& px) {
    Bytes o(18); o[2] = c == 1 ? 3 : 2; o[12] = w & 255; o[13] = w >> 8; o[14] = h & 255; o[15] = h >> 8; o[16] = 8 * c; o[17] = 0x20 | (c == 4 ? 8 : 0);
    for (int i = 0; i < w * h; i++) { if (c == 1) o.push_back(px[i]); else { for (int k : { 2, 1, 0 }) o.push_back(px[size_t(i) * c + k]); if (c == 4) o.push_back(px[size_t(i) * 4 + 3]); } }
    return o;
}
// flat RGBE; px holds w*h*4 bytes
inline Bytes hdr(int w, int h, const Bytes& px) { Bytes o; put(o, "#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n-Y " + std::to_string(h) + " +X " + std::to_string(w) + "\n"); o.insert(o.end(), px.begin(), px.end()); return o; }
inline void write(const std::string& p, const Bytes& b) { FILE* f = fopen(p.c_str(), "wb"); if (!f) throw std::runtime_error("cannot write " + p); if (fwrite(b.data(), 1, b.size(), f) != b.size()) throw std::runtime_error("short write"); fclose(f); }
inline Bytes read(const std::string& p) { FILE* f = fopen(p.c_str(), "rb"); if (!f) throw std::runtime_error("cannot read " + p); Bytes b; unsigned char t[65536]; size_t n; while ((n = fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + n); fclose(f); return b; }

// --- decoders -------------------------------------------------------------------------------------
struct Img { int w = 0, h = 0, c = 0; std::vector<double> v; std::string err; };
struct Inflate {
    const unsigned char* p; size_t n, i = 0; uint32_t bit = 0; int nb = 0; Bytes out; bool bad = false;
    int bits(int k) { while (nb < k) { if (i >= n) { bad = true; return 0; } bit |= uint32_t(p[i++]) << nb; nb += 8; } const int r = bit & ((1u << k) - 1); bit >>= k; nb -= k; return r; }
    struct H { int cnt[16] = { 0 }; std::vector<int> sym; void make(const std::vector<int>& l) { for (int x : l) cnt[x]++; cnt[0] = 0; std::vector<int> off(17); for (int k = 1; k < 16; k++) off[k + 1] = off[k] + cnt[k]; sym.assign(l.size(), 0); for (size_t s = 0; s < l.size(); s++) if (l[s]) sym[off[l[s]]++] = int(s); } };
    int dec(const H& h) { int code = 0, first = 0, idx = 0; for (int k = 1; k < 16; k++) { code |= bits(1); if (bad) return 0; const int c = h.cnt[k]; if (code - c < first) return h.sym[idx + (code - first)]; idx += c; first += c; first <<= 1; code <<= 1; } bad = true; return 0; }
    bool run() {
        static const int LB[] = { 3,4,5,6,7,8,9,10,11,13,15,17,19,23,27,31,35,43,51,59,67,83,99,115,131,163,195,227,258 }, LE[] = { 0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,0 };
        static const int DB[] = { 1,2,3,4,5,7,9,13,17,25,33,49,65,97,129,193,257,385,513,769,1025,1537,2049,3073,4097,6145,8193,12289,16385,24577 }, DE[] = { 0,0,0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,10,10,11,11,12,12,13,13 };
        for (;;) {
            const int last = bits(1), t = bits(2); if (bad) return false;
            if (t == 0) { bit = 0; nb = 0; if (i + 4 > n) return false; const size_t l = p[i] | (p[i + 1] << 8); i += 4; if (i + l > n) return false; out.insert(out.end(), p + i, p + i + l); i += l; }
            else {
                H L, D;
                if (t == 1) { std::vector<int> l(288), d(30, 5); for (int k = 0; k < 288; k++) l[k] = k < 144 ? 8 : k < 256 ? 9 : k < 280 ? 7 : 8; L.make(l); D.make(d); }
                else if (t == 2) {
                    const int nl = bits(5) + 257, nd = bits(5) + 1, nc = bits(4) + 4; static const int ord[] = { 16,17,18,0,8,7,9,6,10,5,11,4,12,3,13,2,14,1,15 };
                    std::vector<int> cl(19); for (int k = 0; k < nc; k++) cl[ord[k]] = bits(3); H C; C.make(cl); std::vector<int> l;
                    while (int(l.size()) < nl + nd) { const int s = dec(C); if (bad) return false; if (s < 16) l.push_back(s); else { int prev = 0, rep; if (s == 16) { if (l.empty()) return false; prev = l.back(); rep = 3 + bits(2); } else if (s == 17) rep = 3 + bits(3); else rep = 11 + bits(7); l.insert(l.end(), rep, prev); } }
                    L.make(std::vector<int>(l.begin(), l.begin() + nl)); D.make(std::vector<int>(l.begin() + nl, l.begin() + nl + nd));
                } else return false;
                for (;;) { const int s = dec(L); if (bad) return false; if (s < 256) { out.push_back(s); continue; } if (s == 256) break; if (s > 285) return false; const int ln = LB[s - 257] + bits(LE[s - 257]), ds = dec(D); if (bad || ds > 29) return false; const size_t dist = DB[ds] + bits(DE[ds]); if (dist > out.size()) return false; for (int k = 0; k < ln; k++) out.push_back(out[out.size() - dist]); }
            }
            if (last) return true;
        }
    }
};
inline Img dec_png(const Bytes& b) {
    Img r; if (b.size() < 33 || memcmp(&b[1], "PNG", 3)) { r.err = "no PNG signature"; return r; }
    const auto u32 = [&](size_t i) { return (uint32_t(b[i]) << 24) | (b[i + 1] << 16) | (b[i + 2] << 8) | b[i + 3]; };
    Bytes z; size_t i = 8; int ct = 0, bd = 0; bool end = false;
    while (i + 12 <= b.size()) { const uint32_t n = u32(i); if (i + 12 + n > b.size()) { r.err = "truncated chunk"; return r; } if (crc(&b[i + 4], n + 4) != u32(i + 8 + n)) { r.err = "chunk checksum"; return r; }
        if (!memcmp(&b[i + 4], "IHDR", 4)) { r.w = u32(i + 8); r.h = u32(i + 12); bd = b[i + 16]; ct = b[i + 17]; } if (!memcmp(&b[i + 4], "IDAT", 4)) z.insert(z.end(), b.begin() + i + 8, b.begin() + i + 8 + n); if (!memcmp(&b[i + 4], "IEND", 4)) end = true; i += 12 + n; }
    if (!end || bd != 8) { r.err = "no end or depth"; return r; }
    r.c = ct == 0 ? 1 : ct == 4 ? 2 : ct == 2 ? 3 : 4;
    if (z.size() < 6) { r.err = "no data"; return r; }
    Inflate f{ &z[2], z.size() - 2 }; if (!f.run()) { r.err = "deflate stream"; return r; }
    const size_t st = size_t(r.w) * r.c; if (f.out.size() != (st + 1) * r.h) { r.err = "size of the image data"; return r; }
    Bytes px(st * r.h);
    for (int y = 0; y < r.h; y++) { const unsigned char* s = &f.out[(st + 1) * y]; const int ft = *s++; for (size_t x = 0; x < st; x++) { const int a = x >= size_t(r.c) ? px[y * st + x - r.c] : 0, up = y ? px[(y - 1) * st + x] : 0, ul = y && x >= size_t(r.c) ? px[(y - 1) * st + x - r.c] : 0; int pr = 0;
        if (ft == 1) pr = a; else if (ft == 2) pr = up; else if (ft == 3) pr = (a + up) / 2; else if (ft == 4) { const int p = a + up - ul, pa = abs(p - a), pb = abs(p - up), pc = abs(p - ul); pr = pa <= pb && pa <= pc ? a : pb <= pc ? up : ul; } px[y * st + x] = (unsigned char)(s[x] + pr); } }
    r.v.assign(px.begin(), px.end()); return r;
}
inline Img dec_pfm(const Bytes& b) {
    Img r; const std::string s(b.begin(), b.begin() + std::min<size_t>(b.size(), 200)); char t; int w, h, n = 0; double sc;
    if (sscanf(s.c_str(), "P%c %d %d %lf%n", &t, &w, &h, &sc, &n) != 4 || (t != 'F' && t != 'f')) { r.err = "PFM header"; return r; }
    n++; r.w = w; r.h = h; r.c = t == 'F' ? 3 : 1; if (sc >= 0) { r.err = "big-endian PFM"; return r; }
    if (b.size() != size_t(n) + size_t(w) * h * r.c * 4) { r.err = "PFM size"; return r; }
    r.v.resize(size_t(w) * h * r.c); for (size_t i = 0; i < r.v.size(); i++) { float f; memcpy(&f, &b[n + 4 * i], 4); r.v[i] = f; } return r;   // bottom row first
}
inline Img dec_hdr(const Bytes& b) {
    Img r; const std::string s(b.begin(), b.end()); const size_t e = s.find("\n\n"); if (s.compare(0, 2, "#?") || e == std::string::npos || s.find("FORMAT=32-bit_rle_rgbe") > e) { r.err = "HDR header"; return r; }
    int n = 0; if (sscanf(s.c_str() + e + 2, "-Y %d +X %d%n", &r.h, &r.w, &n) != 2) { r.err = "HDR resolution"; return r; }
    double ex = 1; { size_t q = s.find("EXPOSURE="); if (q < e) ex = atof(s.c_str() + q + 9); }
    size_t i = e + 2 + n + 1; r.c = 3; Bytes row(size_t(r.w) * 4);
    for (int y = 0; y < r.h; y++) {
        if (r.w >= 8 && r.w < 32768 && i + 4 <= b.size() && b[i] == 2 && b[i + 1] == 2 && ((b[i + 2] << 8) | b[i + 3]) == r.w) { i += 4; for (int k = 0; k < 4; k++) for (int x = 0; x < r.w;) { if (i >= b.size()) { r.err = "HDR data"; return r; } int c = b[i++]; if (c > 128) { c -= 128; if (x + c > r.w || i >= b.size()) { r.err = "HDR run"; return r; } while (c--) row[4 * x++ + k] = b[i]; i++; } else { if (x + c > r.w || i + c > b.size()) { r.err = "HDR run"; return r; } while (c--) row[4 * x++ + k] = b[i++]; } } }
        else { if (i + row.size() > b.size()) { r.err = "HDR data"; return r; } memcpy(row.data(), &b[i], row.size()); i += row.size(); }
        for (int x = 0; x < r.w; x++) for (int k = 0; k < 3; k++) r.v.push_back(row[4 * x + 3] ? std::ldexp(double(row[4 * x + k]), int(row[4 * x + 3]) - 136) / ex : 0);
    }
    return r;   // top row first
}
} // namespace imgio
