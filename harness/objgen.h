// Generator of well-formed OBJ/MTL files with an own description of what they contain.
#pragma once
#include "lmgen.h"
#include "matgen.h"
#include "imgio.h"

namespace objgen {
using namespace lmgen;
struct Tex { std::string name; bool alpha; imgio::Bytes px; double a(int) const { return 0; } };
struct Mat { std::string name; int illum; Vec3 Kd, Ks, Ke; double Ns, Ni, an; int tex; };
struct V { int p, t, n; };
struct Face { std::vector<V> v; int mat; };
struct Desc {
    std::vector<Vec3> ps, ns; std::vector<Vec2> ts;
    std::vector<Tex> tex; std::vector<Mat> mats; std::vector<Face> faces;
    std::string obj; std::vector<std::string> mtl;
};
inline std::string num(Ctx& c, double v) {
    char b[64];
    switch (c.weighted({ 6, 1, 1 })) { case 1: snprintf(b, 64, "%.17e", v); break; case 2: snprintf(b, 64, "%+.17g", v); break; default: snprintf(b, 64, "%.17g", v); }
    return b;
}
inline double coord(Ctx& c) { switch (c.weighted({ 5, 3, 1 })) { case 0: return c.nice(-10, 10); case 1: return c.real(-1, 1); default: return (c.coin() ? 1 : -1) * c.logreal(1e-6, 1e5); } }

inline Desc gen(Ctx& c, bool tiny) {
    Desc d;
    const std::string sp = c.chance(.2) ? "\t" : !tiny && c.chance(.2) ? "  " : " ";
    const std::string eolc = c.chance(.25) ? "\r\n" : "\n";
    // --- materials
    const int nm = c.chance(.15) ? 0 : c.in(1, 4);
    const bool odd = c.chance(.3);  // names that look like names of other parts of the model
    std::vector<std::string> pool = odd ? std::vector<std::string>{ "mesh_1", "mesh_2", "mesh_3", "texture_t0", "texture_sub", "mesh_4", "mesh_2_light", "Material.001", "default" } : std::vector<std::string>{ "a", "B", "wood", "Material_001", "m-1", "x(1)", "0", "diffuse", "red" };
    const int nt = nm && c.chance(.5) ? c.in(1, 3) : 0;
    std::vector<std::string> tp = { "t0.png", "t1.png", "T2.tga" };
    if (c.chance(.3)) tp = { "t0.png", "sub/t0.png", "t0.tga", "t.v2.png", "sub/t.v2.png" };
    for (int i = 0; i < nt; i++) {
        const size_t k = c.raw(tp.size() - 1); Tex t; t.name = tp[k]; tp.erase(tp.begin() + k); t.alpha = c.coin();
        const int ch = t.alpha ? 4 : 3;
        t.px.resize(ch); for (auto& x : t.px) x = (unsigned char)c.raw(255);
        imgio::write(c.scratch + "/" + t.name, t.name.back() == 'a' ? imgio::tga(1, 1, ch, t.px) : imgio::png(1, 1, ch, t.px));
        d.tex.push_back(t);
    }
    const int nlib = nm > 1 && c.chance(.2) ? 2 : 1;
    d.mtl.resize(nm ? nlib : 0);
    for (int i = 0; i < nm; i++) {
        Mat m; const size_t k = c.raw(pool.size() - 1); m.name = pool[k]; pool.erase(pool.begin() + k);
        if (c.chance(.02)) m.name += std::string(c.in(100, 600), 'q');
        m.illum = c.pick(std::vector<int>{ 2, 2, 2, 5, 7, 1, 0 }); m.Kd = gen_color(c); m.Ks = c.coin() ? Vec3(0) : gen_color(c);
        m.Ke = c.chance(.3) ? gen_color(c, .1, 20) : Vec3(0); if (c.chance(.1)) { m.Ke = Vec3(0); m.Ke[c.in(0, 2)] = c.chance(.3) ? c.logreal(1e-9, 1e-2) : c.real(.01, 3); }
        m.Ns = c.pick(std::vector<double>{ 0, 1, 10, c.logreal(.1, 1e4) }); m.Ni = c.chance(.2) ? c.real(.4, 1) : c.real(1, 2.5); m.an = c.chance(.3) ? c.real(c.coin() ? 0 : -1, 1) : 0;
        m.tex = nt && c.coin() ? c.in(0, nt - 1) : -1;
        std::vector<std::string> l;
        const auto v3 = [&](Vec3 v) { return num(c, v.x) + sp + num(c, v.y) + sp + num(c, v.z); };
        l.push_back("Kd" + sp + v3(m.Kd)); l.push_back("Ns" + sp + num(c, m.Ns)); l.push_back("Ni" + sp + num(c, m.Ni)); l.push_back("illum" + sp + std::to_string(m.illum));
        if (m.Ks != Vec3(0) || c.coin()) l.push_back("Ks" + sp + v3(m.Ks));
        if (m.Ke != Vec3(0) || c.coin()) l.push_back("Ke" + sp + v3(m.Ke));
        if (m.an != 0) l.push_back("aniso" + sp + num(c, m.an));
        if (m.tex >= 0) l.push_back("map_Kd" + sp + d.tex[m.tex].name);
        if (c.chance(.3)) l.push_back("Ka 1 1 1"); if (c.chance(.2)) l.push_back("# Kd 9 9 9"); if (c.chance(.2)) l.push_back("d 1");
        for (size_t j = l.size(); j > 1; j--) std::swap(l[j - 1], l[c.raw(j - 1)]);
        std::string& f = d.mtl[nlib == 2 ? (i >= nm / 2) : 0];
        const std::string ind = c.chance(.2) ? "\t" : "";
        f += "newmtl" + sp + m.name + eolc; for (auto& x : l) f += ind + x + eolc; if (c.coin()) f += eolc;
        d.mats.push_back(m);
    }
    // --- geometry
    int cur = 0; bool used = nm == 0;
    std::string& o = d.obj;
    if (c.chance(.3)) o += "# model" + eolc;
    for (int i = 0; i < int(d.mtl.size()); i++) o += "mtllib" + sp + "m" + std::to_string(i) + ".mtl" + eolc;
    if (d.mtl.size() == 1 && c.chance(.1)) o += "mtllib" + sp + "m0.mtl" + eolc;   // named again
    const int blocks = c.in(1, 6);
    for (int b = 0; b < blocks; b++) {
        const int nv = b == 0 ? c.in(3, 8) : c.in(0, 4);
        for (int i = 0; i < nv; i++) { const Vec3 p(coord(c), coord(c), coord(c)); d.ps.push_back(p); o += (c.chance(.1) ? " " : "") + std::string("v") + sp + num(c, p.x) + sp + num(c, p.y) + sp + num(c, p.z) + (c.chance(.1) ? " " : "") + eolc; }
        const int nn = c.chance(.6) ? c.in(0, 3) : 0, ntx = c.chance(.6) ? c.in(0, 3) : 0;
        for (int i = 0; i < nn; i++) { const Vec3 n = unit(gen_dir(c)); d.ns.push_back(n); o += "vn" + sp + num(c, n.x) + sp + num(c, n.y) + sp + num(c, n.z) + eolc; }
        for (int i = 0; i < ntx; i++) { const Vec2 t(c.nice(-2, 2), c.nice(-2, 2)); d.ts.push_back(t); o += "vt" + sp + num(c, t.x) + sp + num(c, t.y) + (c.coin() ? sp + "0" : "") + eolc; }
        const int ops = c.in(1, 6);
        for (int k = 0; k < ops; k++) {
            if (c.chance(.25)) o += c.pick(std::vector<std::string>{ "g grp", "g a b", "g", "o obj", "s 1", "s off", "", "# f 1 2 3" }) + eolc;
            if (c.chance(.01)) o += "# " + std::string(c.in(4000, 5000), 'x') + eolc;
            if (nm && (!used || c.chance(.35))) { cur = c.in(0, nm - 1); used = true; o += "usemtl" + sp + d.mats[cur].name + eolc; if (c.chance(.15)) o += "g again" + eolc; }
            if (c.chance(.15)) continue;
            Face f; f.mat = nm ? cur : -1;
            const int n = tiny ? c.weighted({ 0, 0, 0, 3, 1 }) : c.weighted({ 0, 0, 0, 30, 15, 5, 5, 3, 2, 2, 2 });
            const bool ht_ = !d.ts.empty() && c.coin(), hn_ = !d.ns.empty() && c.coin();
            const bool mixed = !tiny && c.chance(.15);   // vertices of one face with different attributes
            std::set<int> usedp; o += "f";
            for (int j = 0; j < n; j++) {
                const bool ht = ht_ && !(mixed && c.coin()), hn = hn_ && !(mixed && c.coin());
                V v{ c.in(0, int(d.ps.size()) - 1), ht ? c.in(0, int(d.ts.size()) - 1) : -1, hn ? c.in(0, int(d.ns.size()) - 1) : -1 };
                if (usedp.size() < d.ps.size()) while (usedp.count(v.p)) v.p = (v.p + 1) % int(d.ps.size());
                usedp.insert(v.p); f.v.push_back(v);
                const auto ix = [&](int i, int sz) { return std::to_string(c.chance(.3) ? i - sz : i + 1); };
                o += sp + ix(v.p, int(d.ps.size())); if (ht || hn) o += "/"; if (ht) o += ix(v.t, int(d.ts.size())); if (hn) o += "/" + ix(v.n, int(d.ns.size()));
            }
            o += (c.chance(.15) ? " " : "") + eolc;
            d.faces.push_back(f);
        }
    }
    if (c.chance(.1)) while (!o.empty() && (o.back() == '\n' || o.back() == '\r')) o.pop_back();
    return d;
}
} // namespace objgen
