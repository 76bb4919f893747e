// P06: lights — sampling, density and emission agree for every light, placement and receiver.
#include "matgen.h"
using namespace lmgen;

namespace {
const double PI_ = 3.14159265358979323846;

struct Receiver { PointGeometry g; bool degenerate; };
Receiver gen_receiver(Ctx& c, double s) {
    Receiver r; r.degenerate = c.chance(.3);
    const Vec3 p = gen_vec(c, s);
    if (r.degenerate) r.g = PointGeometry::make_degenerated(p);
    else { const Vec3 n = gen_dir(c); r.g = PointGeometry::make_on_surface(p, n, n); }
    return r;
}
// Solid angle of a triangle seen from the origin (Van Oosterom & Strackee), signed.
LD solid_angle(Vec3 a, Vec3 b, Vec3 c) {
    const LD la = std::sqrt((LD)dot_(a, a)), lb = std::sqrt((LD)dot_(b, b)), lc = std::sqrt((LD)dot_(c, c));
    const LD det = dot_(a, cross_(b, c));
    const LD den = la * lb * lc + (LD)dot_(a, b) * lc + (LD)dot_(a, c) * lb + (LD)dot_(b, c) * la;
    return 2 * std::atan2(det, den);
}
double sqr(double x) { return x * x; }
double len(Vec3 v) { return std::sqrt(dot_(v, v)); }

// Uniformity of a direction sampler over the sphere: first and second moments from a jittered grid.
void check_uniform_sphere(Ctx& c, const std::function<Vec3(Vec2)>& f, const std::string& what) {
    const int K = 24; double m[3] = {}, q[3][3] = {}; const double a = c.unit(), b = c.unit();
    for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) {
        const Vec3 d = f(Vec2((i + a) / K, (j + b) / K));
        c.check(near(len(d), 1.0, 1e-9), "direction-unit", [&] { return what + ": direction not unit: " + S(d); });
        for (int k = 0; k < 3; k++) { m[k] += d[k] / (K * K); for (int l = 0; l < 3; l++) q[k][l] += d[k] * d[l] / (K * K); }
    }
    for (int k = 0; k < 3; k++) {
        c.check(std::fabs(m[k]) < .06, "direction-distribution", [&] { return what + ": mean direction component " + S(m[k]) + " instead of 0"; });
        for (int l = 0; l < 3; l++) c.check(std::fabs(q[k][l] - (k == l ? 1 / 3. : 0)) < .06, "direction-distribution", [&] { return what + ": second moment " + S(q[k][l]); });
    }
}

// ------------------------------------------------------------------------------------------------
void area(Ctx& c) {
    MeshSpec ms = gen_mesh(c, 10, 2);
    double z = 1; if (c.chance(.15)) { z = c.logreal(1e-4, 1e2); for (auto& p : ms.ps) p *= z; c.label(z < 1e-2 ? "area-tiny" : "area-scaled"); }
    const double z2 = z * z;
    asset("mesh", "mesh::raw", ms.json());
    const int nt = ms.num_tris();
    std::vector<double> Al(nt), Aw(nt); std::vector<std::array<Vec3, 3>> L(nt), W(nt);
    const int kind = c.in(0, 3); const Mat4 M = gen_transform(c, kind);
    double sum = 0;
    for (int i = 0; i < nt; i++) {
        for (int k = 0; k < 3; k++) { L[i][k] = ms.ps[ms.fs[3 * i + k].p]; W[i][k] = xform_point(M, L[i][k]); }
        Al[i] = len(tri_cross(L[i][0], L[i][1], L[i][2])) / 2; Aw[i] = len(tri_cross(W[i][0], W[i][1], W[i][2])) / 2; sum += Al[i];
    }
    if (sum < 1e-3 * z2) throw pbt::Discard{};
    const Vec3 Ke = gen_color(c, 0, 10);
    const auto* l = get<Light>(asset("light", "light::area", { {"Ke", J(Ke)}, {"mesh", "$.assets.mesh"} }));
    const Transform T(M);
    c.note("area light, ", nt, " triangles, transform kind ", kind, ", Ke=", s6(Ke));
    c.label("area-xf" + std::to_string(kind));
    const auto ctx = [&](const std::string& s) { std::string m; for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) m += S(M[i][j]) + " "; return s + " [area light, " + std::to_string(nt) + " triangles, columns of M: " + m + "]"; };
    c.check(!l->is_specular() && !l->is_infinite() && !l->is_env(), "flags", [&] { return ctx("flags"); });
    const Receiver r = gen_receiver(c, 8);
    // Which triangle does a world point lie on?
    const auto locate = [&](Vec3 p, double* bu, double* bv) -> int {
        int best = -1; double bd = 1e-6 * std::max(z, 1e-3);
        for (int i = 0; i < nt; i++) {
            if (Aw[i] < 1e-7 * z2) continue;
            const Vec3 e1 = W[i][1] - W[i][0], e2 = W[i][2] - W[i][0], n = cross_(e1, e2), q = p - W[i][0];
            const double nn = dot_(n, n), u = dot_(cross_(q, e2), n) / nn, v = dot_(cross_(e1, q), n) / nn, d = std::fabs(dot_(q, n)) / std::sqrt(nn);
            const double s = 1 + len(p);
            const double tol = 1e-7;
            if (d < 1e-9 * s && u > -tol && v > -tol && u + v < 1 + tol && d < bd) { bd = d + 1e-15; best = i; if (bu) { *bu = u; *bv = v; } }
        }
        return best;
    };
    // Point on the light as a query hit on triangle i would describe it.
    const auto pt = [&](int i, double u, double v) { const Vec3 p = W[i][0] * (1 - u - v) + W[i][1] * u + W[i][2] * v; const Vec3 gn = xform_normal(M, unit(tri_cross(L[i][0], L[i][1], L[i][2]))); return PointGeometry::make_on_surface(p, gn, gn); };
    // Density at given points of each triangle
    for (int k = 0; k < 6; k++) {
        const int i = c.in(0, nt - 1); if (Aw[i] < 1e-6 * z2 || Al[i] < 1e-6 * z2) continue;
        double u = c.unit(), v = c.unit(); if (u + v > 1) { u = 1 - u; v = 1 - v; }
        const auto gL = pt(i, u, v);
        const double ref = Al[i] / sum / Aw[i];
        const double got = l->pdf_position(gL, T);
        c.check(near(got, ref, 1e-6), "area-density", [&] { return ctx("density over the light's surface " + S(got) + ", expected " + S(ref) + " at a point of triangle " + std::to_string(i)); });
        const Vec3 wo = gen_dir(c); const double co = dot_(wo, gL.n); if (std::fabs(co) < 1e-6) continue;
        c.check(l->eval(gL, wo, c.coin()) == (co > 0 ? Ke : Vec3(0)), "emission-side", [&] { return ctx("emission " + S(l->eval(gL, wo, false)) + " at cosine " + S(co)); });
        const double pr = l->pdf_ray(gL, wo, T, c.coin()), pd = l->pdf_direction(gL, wo);
        c.check(near(pd, co > 0 ? 1 / PI_ : 0, 1e-9) && near(pr, co > 0 ? ref / PI_ : 0, 1e-6), "ray-density", [&] { return ctx("direction density " + S(pd) + ", ray density " + S(pr)); });
        // toward the receiver
        const Vec3 d = r.g.p - gL.p; const double D = len(d); if (D < 1e-3) continue;
        const Vec3 w = d / D; const double cl = dot_(w, gL.n), cr = r.degenerate ? 1 : std::fabs(dot_(w, r.g.n));
        if (std::fabs(cl) < 1e-5 || cr < 1e-5) continue;
        const double want = cl <= 0 ? 0 : ref * D * D / (cl * cr), pdir = l->pdf_direct(r.g, gL, T, w, c.coin());
        c.check(near(pdir, want, 1e-6), "direct-density", [&] { return ctx("direct density " + S(pdir) + ", expected " + S(want)); });
    }
    // Sampler
    const int N = 2048; std::vector<int> cnt(nt); double sb[5] = {}; int nb = 0; Vec3 mean(0); double maxw = 0;
    LD4 q(c.unit()); double mc = 0, mc2 = 0, az[4] = {};
    for (int k = 0; k < N; k++) {
        q.next();
        const double upc = (k + .5) / N; const Vec2 up(q.x[0], q.x[1]), ud(q.x[2], q.x[3]);
        const auto ps = l->sample_position({ up, upc }, T);
        c.check(bool(ps), "no-sample", [&] { return ctx("no position sampled"); }); if (!ps) return;
        double u = 0, v = 0; const int i = locate(ps->geom.p, &u, &v);
        const bool exact = i >= 0;
        if (!exact) { // may belong to a sliver triangle
            bool sliver = false; for (int j = 0; j < nt; j++) sliver |= Aw[j] < 1e-7 * z2; 
            c.check(sliver, "off-surface", [&] { return ctx("sampled position " + S(ps->geom.p) + " is not on the transformed mesh"); });
            continue;
        }
        c.check(near(ps->weight, Vec3(1 / l->pdf_position(ps->geom, T)), 1e-9), "position-weight", [&] { return ctx("position weight " + S(ps->weight) + " density " + S(l->pdf_position(ps->geom, T))); });
        cnt[i]++;
        if (k % 16 == 0) {
            bool okn = false; // overlapping triangles: any with that normal and position
            for (int j = 0; j < nt && !okn; j++) if (Aw[j] >= 1e-7 * z2) okn = near(ps->geom.n, xform_normal(M, unit(tri_cross(L[j][0], L[j][1], L[j][2]))), 0, 1e-6);
            c.check(okn && !ps->geom.degenerated && !ps->geom.infinite, "sample-normal", [&] { return ctx("sampled normal " + S(ps->geom.n) + " is no normal of the mesh"); });
            const auto rs = l->sample_ray({ up, upc, ud }, T);
            c.check(rs && near(rs->geom.p, ps->geom.p, 1e-9), "ray-position", [&] { return ctx("ray starts elsewhere than the position sample"); });
            if (rs && dot_(rs->wo, rs->geom.n) > 1e-6)
                c.check(near(rs->weight * l->pdf_ray(rs->geom, rs->wo, T, false), Ke, 1e-6, 1e-9), "ray-weight", [&] { return ctx("ray weight " + S(rs->weight) + " times density " + S(l->pdf_ray(rs->geom, rs->wo, T, false)) + " is not the emission " + S(Ke)); });
            const auto ds = l->sample_direction({ ud }, ps->geom);
            if (ds && dot_(ds->wo, ps->geom.n) > 1e-6)
                c.check(near(ds->weight * l->pdf_direction(ps->geom, ds->wo), l->eval(ps->geom, ds->wo, false), 1e-6, 1e-9), "direction-weight", [&] { return ctx("direction weight"); });
        }
        { const auto ds = l->sample_direction({ ud }, ps->geom); if (ds) { const double x = dot_(ds->wo, ps->geom.n); mc += x / N; mc2 += x * x / N; const auto [tu, tv] = math::orthonormal_basis(ps->geom.n); const double a1 = dot_(ds->wo, tu), a2 = dot_(ds->wo, tv); az[0] += a1 / N; az[1] += a2 / N; az[2] += (a1 * a1 - a2 * a2) / N; az[3] += a1 * a2 / N; } }
        sb[0] += 1 - u - v; sb[1] += u; sb[2] += v; sb[3] += u * u; sb[4] += v * v; nb++;
        const auto s = l->sample_direct({ up, upc, ud }, r.g, T);
        const Vec3 d = r.g.p - ps->geom.p; const double D = len(d);
        if (!s) { c.check(dot_(d, ps->geom.n) <= 1e-7 * D || (!r.degenerate && std::fabs(dot_(d, r.g.n)) < 1e-7 * D), "direct-none", [&] { return ctx("no direct sample although the light faces the receiver"); }); continue; }
        c.check(near(s->geom.p, ps->geom.p, 1e-9, 1e-9) && near(s->wo, d / D, 1e-7), "direct-sample", [&] { return ctx("direct sample inconsistent with position sample"); });
        const double pd = l->pdf_direct(r.g, s->geom, T, s->wo, false);
        c.check(near(s->weight * pd, l->eval(s->geom, s->wo, false), 1e-6, 1e-9), "direct-weight", [&] { return ctx("direct weight " + S(s->weight) + " times density " + S(pd) + " is not the emission"); });
        mean += s->weight / double(N); maxw = std::max(maxw, std::max({ s->weight.x, s->weight.y, s->weight.z }));
    }
    c.check(std::fabs(mc - 2 / 3.) < .02 && std::fabs(mc2 - .5) < .02, "direction-distribution", [&] { return ctx("emitted cosines have mean " + S(mc) + " and square " + S(mc2)); });
    for (double x : az) c.check(std::fabs(x) < .03, "direction-distribution", [&] { return ctx("emitted directions are not symmetric about the normal: tangential moments " + S(az[0]) + " " + S(az[1]) + " " + S(az[2]) + " " + S(az[3])); });
    // Selection frequencies (upc is stratified): exact up to the strata at the interval ends, coincident triangles merged
    bool overlap = nb != N;
    for (int i = 0; i < nt && !overlap; i++) for (int j = 0; j < i && !overlap; j++) { if (Aw[i] < 1e-7 * z2 || Aw[j] < 1e-7 * z2) continue; const Vec3 ni = unit(tri_cross(W[i][0], W[i][1], W[i][2])), nj = unit(tri_cross(W[j][0], W[j][1], W[j][2])); overlap = std::fabs(std::fabs(dot_(ni, nj)) - 1) < 1e-6 && std::fabs(dot_(ni, W[j][0] - W[i][0])) < 1e-6 * (1 + len(W[i][0])); }
    if (!overlap) for (int i = 0; i < nt; i++) c.check(std::fabs(cnt[i] - Al[i] / sum * N) <= 3, "triangle-frequency", [&] { return ctx("triangle " + std::to_string(i) + " drawn " + std::to_string(cnt[i]) + " of " + std::to_string(N) + ", area share " + S(Al[i] / sum)); });
    if (!overlap) {
        for (double& x : sb) x /= nb;
        c.check(std::fabs(sb[0] - 1 / 3.) < .03 && std::fabs(sb[1] - 1 / 3.) < .03 && std::fabs(sb[3] - 1 / 6.) < .03 && std::fabs(sb[4] - 1 / 6.) < .03, "triangle-uniform", [&] { return ctx("barycentric moments " + S(sb[0]) + " " + S(sb[1]) + " " + S(sb[2]) + " " + S(sb[3]) + " " + S(sb[4])); });
    }
    // Incident radiance over the solid angle of the lit triangles (no occlusion), receiver outside the light's neighbourhood
    if (r.degenerate) {
        double mind = 1e9, ext = 0; for (int i = 0; i < nt; i++) for (auto& p : W[i]) { mind = std::min(mind, len(p - r.g.p)); ext = std::max(ext, len(p - W[0][0])); }
        LD om = 0; for (int i = 0; i < nt; i++) { const LD s = solid_angle(W[i][0] - r.g.p, W[i][1] - r.g.p, W[i][2] - r.g.p); const bool flip = det3(M) < 0; const LD t = flip ? -s : s; if (t < 0) om -= t; }
        if (mind > ext * .7 && maxw > 0) {
            const Vec3 ref = Ke * double(om);
            c.label("solid-angle");
            c.check(near(mean, ref, .05, .02 * maxw), "incident-radiance", [&] { return ctx("mean direct weight " + S(mean) + ", emission integrated over the solid angle " + S(ref)); });
        }
    }
    c.nontrivial = true;
}

void point(Ctx& c) {
    const Vec3 Le = gen_color(c, 0, 10), pos = gen_vec(c, 4);
    const auto* l = get<Light>(asset("light", "light::point", { {"Le", J(Le)}, {"position", J(pos)} }));
    c.note("point light at ", s6(pos)); c.label("point");
    const Transform T(Mat4(1.0));
    c.check(!l->is_infinite() && !l->is_env(), "flags", [] { return std::string("point light flags"); });
    for (int k = 0; k < 12; k++) {
        const Receiver r = gen_receiver(c, 6); const Vec3 d = r.g.p - pos; const double D = len(d); if (D < 1e-3) continue;
        const Vec3 w = d / D; const double cr = r.degenerate ? 1 : std::fabs(dot_(w, r.g.n)); if (cr < 1e-6) continue;
        const auto s = l->sample_direct({ Vec2(c.unit(), c.unit()), c.unit(), Vec2(c.unit(), c.unit()) }, r.g, T);
        const auto ctx = [&](const std::string& t) { return t + " [point light at " + S(pos) + ", receiver " + S(r.g.p) + (r.degenerate ? "" : " normal " + S(r.g.n)) + "]"; };
        c.check(s && near(s->wo, w, 1e-9) && near(s->geom.p, pos, 0) && s->geom.degenerated, "point-direct", [&] { return ctx("direct sample wrong"); });
        if (!s) continue;
        c.check(near(s->weight, Le * (cr / (D * D)), 1e-6, 1e-12), "point-direct-weight", [&] { return ctx("direct weight " + S(s->weight) + ", expected " + S(Le * (cr / (D * D)))); });
        const double p = l->pdf_direct(r.g, s->geom, T, s->wo, false);
        c.check(near(s->weight * p, l->eval(s->geom, s->wo, false), 1e-9, 1e-12), "direct-weight", [&] { return ctx("weight*density != emission"); });
        const Vec2 ud(c.unit_c(), c.unit_c());
        const auto rs = l->sample_ray({ Vec2(c.unit(), c.unit()), c.unit(), ud }, T);
        c.check(rs && near(rs->geom.p, pos, 0) && near(rs->weight * l->pdf_ray(rs->geom, rs->wo, T, false), Le, 1e-9), "ray-weight", [&] { return ctx("ray sample"); });
        const auto ds = l->sample_direction({ ud }, s->geom);
        c.check(ds && near(ds->weight * l->pdf_direction(s->geom, ds->wo), Le, 1e-9), "direction-weight", [&] { return ctx("direction sample"); });
        const auto ps = l->sample_position({ Vec2(c.unit(), c.unit()), c.unit() }, T);
        c.check(ps && near(ps->geom.p, pos, 0) && near(ps->weight * l->pdf_position(ps->geom, T), Vec3(1), 1e-9), "position-weight", [&] { return ctx("position sample"); });
        c.check(near(l->pdf_ray(s->geom, w, T, false), 1 / (4 * PI_), 1e-9), "ray-density", [&] { return ctx("ray density"); });
        c.check(l->eval(s->geom, gen_dir(c), false) == Le, "emission", [&] { return ctx("emission"); });
    }
    check_uniform_sphere(c, [&](Vec2 u) { return l->sample_ray({ Vec2(.3, .3), .5, u }, T)->wo; }, "point light");
    c.nontrivial = true;
}

// Rays leaving an infinitely distant light: parallel to the direction, covering the scene bound uniformly.
void check_disk(Ctx& c, const Light* l, const Bound& b, Vec2 ud, double pdf_dir, const std::function<std::string(const std::string&)>& ctx) {
    const Transform T(Mat4(1.0)); const int K = 16; double r2 = 0, rmax = 0; Vec3 ctr(0), d(0); double pr = 0; Vec3 m(0);
    const double a = .5, bb = .5;
    std::vector<Vec3> P;
    for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) {
        const auto s = l->sample_ray({ Vec2((i + a) / K, (j + bb) / K), .5, ud }, T);
        c.check(bool(s), "no-sample", [&] { return ctx("no ray"); }); if (!s) return;
        d = s->wo; pr = l->pdf_ray(s->geom, s->wo, T, false);
        c.check(s->geom.infinite && near(s->geom.wo, s->wo, 1e-12), "infinite-geom", [&] { return ctx("ray origin is not a point at infinity"); });
        c.check(near(s->weight * pr, l->eval(s->geom, s->wo, false), 1e-6, 1e-9), "ray-weight", [&] { return ctx("ray weight " + S(s->weight) + " density " + S(pr)); });
        P.push_back(s->geom.p); m += s->geom.p / double(K * K);
    }
    const Vec3 center = (b.min + b.max) * .5; const double R = len(b.max - b.min) / 2;
    for (auto& p : P) { Vec3 q = p - center; q -= d * dot_(q, d); r2 += dot_(q, q) / P.size(); rmax = std::max(rmax, len(q));
        c.check(dot_(p - center, d) <= -R * (1 - 1e-9), "disk-in-front", [&] { return ctx("emitted ray starts inside the scene bound"); }); }
    { // the disk is filled evenly in all directions
        Vec3 u = std::fabs(d.x) < .6 ? Vec3(1, 0, 0) : Vec3(0, 1, 0); u = unit(cross_(d, u)); const Vec3 v = cross_(d, u); double mm[3] = {};
        for (auto& p : P) { const Vec3 q = p - center; const double x = dot_(q, u), y = dot_(q, v); mm[0] += x * x / P.size(); mm[1] += y * y / P.size(); mm[2] += x * y / P.size(); }
        c.check(std::fabs(mm[0] - r2 / 2) < .05 * r2 && std::fabs(mm[1] - r2 / 2) < .05 * r2 && std::fabs(mm[2]) < .05 * r2, "disk-uniform", [&] { return ctx("second moments of the sampled positions " + S(mm[0]) + " " + S(mm[1]) + " " + S(mm[2])); });
        double r4 = 0; for (auto& p : P) { Vec3 q = p - center; q -= d * dot_(q, d); r4 += sqr(dot_(q, q)) / P.size(); }
        c.check(std::fabs(r4 - r2 * r2 * 4 / 3) < .05 * r2 * r2, "disk-uniform", [&] { return ctx("fourth moment of the sampled radii " + S(r4) + ", second " + S(r2)); });
    }
    const double Rd = std::sqrt(2 * r2);        // radius of the disk the positions fill
    c.check(Rd >= R * .97, "disk-cover", [&] { return ctx("emitted rays cover a disk of radius " + S(Rd) + ", scene bound needs " + S(R)); });
    c.check(near(pr, pdf_dir / (PI_ * Rd * Rd), .04), "ray-density", [&] { return ctx("ray density " + S(pr) + ", sampled disk has radius " + S(Rd)); });
    c.check(len(m - center + d * dot_(center - m, d)) < .1 * R, "disk-center", [&] { return ctx("sampled positions are not centred on the scene"); });
}
Bound gen_bound(Ctx& c) { Bound b; const Vec3 a = gen_vec(c, 4); b.min = a; b.max = a + Vec3(c.real(.1, 5), c.real(.1, 5), c.real(.1, 5)); return b; }

void directional(Ctx& c) {
    const Vec3 Le = gen_color(c, 0, 10), dir = gen_dir(c) * c.logreal(.1, 10);
    const auto* cl = get<Light>(asset("light", "light::directional", { {"Le", J(Le)}, {"direction", J(dir)} }));
    auto* l = const_cast<Light*>(cl);
    const Vec3 d = unit(dir); const Transform T(Mat4(1.0)); const Bound b = gen_bound(c); l->set_scene_bound(b);
    c.note("directional light along ", s6(d)); c.label("directional");
    const auto ctx = [&](const std::string& s) { return s + " [directional light along " + S(d) + "]"; };
    c.check(l->is_specular() && l->is_infinite() && !l->is_env(), "flags", [&] { return ctx("flags"); });
    check_disk(c, l, b, Vec2(c.unit(), c.unit()), 1, ctx);
    for (int k = 0; k < 8; k++) {
        const Receiver r = gen_receiver(c, 6); const double cr = r.degenerate ? 1 : std::fabs(dot_(d, r.g.n)); if (cr < 1e-6) continue;
        const auto s = l->sample_direct({ Vec2(c.unit(), c.unit()), c.unit(), Vec2(c.unit(), c.unit()) }, r.g, T);
        c.check(s && near(s->wo, d, 1e-9) && s->geom.infinite && near(s->geom.wo, d, 1e-9), "directional-direct", [&] { return ctx("direct sample"); });
        if (!s) continue;
        c.check(near(s->weight, Le * cr, 1e-9, 1e-12), "directional-direct-weight", [&] { return ctx("direct weight " + S(s->weight) + ", expected " + S(Le * cr)); });
        c.check(near(s->weight * l->pdf_direct(r.g, s->geom, T, s->wo, false), l->eval(s->geom, s->wo, false), 1e-9), "direct-weight", [&] { return ctx("weight*density != emission"); });
        c.check(l->eval(s->geom, s->wo, true) == Vec3(0) && l->pdf_direct(r.g, s->geom, T, s->wo, true) == 0 && l->pdf_ray(s->geom, s->wo, T, true) == 0, "delta-density", [&] { return ctx("delta emission has non-zero value or density away from the delta: emission " + S(l->eval(s->geom, s->wo, true)) + ", direct density " + S(l->pdf_direct(r.g, s->geom, T, s->wo, true)) + ", ray density " + S(l->pdf_ray(s->geom, s->wo, T, true))); });
        c.check(l->eval(s->geom, s->wo, false) == Le, "emission", [&] { return ctx("emission"); });
    }
    c.nontrivial = true;
}

void envconst(Ctx& c) {
    const Vec3 Le = gen_color(c, 0, 10);
    auto* l = get<Light>(asset("light", "light::envconst", { {"Le", J(Le)} }));
    const Transform T(Mat4(1.0)); const Bound b = gen_bound(c); l->set_scene_bound(b);
    c.note("constant environment"); c.label("envconst");
    const auto ctx = [&](const std::string& s) { return s + " [constant environment]"; };
    c.check(!l->is_specular() && l->is_infinite() && l->is_env(), "flags", [&] { return ctx("flags"); });
    for (int k = 0; k < 3; k++) check_disk(c, l, b, Vec2(c.unit_c(), c.unit_c()), 1 / (4 * PI_), ctx);
    check_uniform_sphere(c, [&](Vec2 u) { return l->sample_ray({ Vec2(.3, .3), .5, u }, T)->wo; }, "constant environment ray");
    const Receiver r = gen_receiver(c, 6);
    check_uniform_sphere(c, [&](Vec2 u) {
        const auto s = l->sample_direct({ Vec2(.3, .3), .5, u }, r.g, T); if (!s) return gen_dir(c);
        const double cr = r.degenerate ? 1 : std::fabs(dot_(s->wo, r.g.n));
        c.check(near(s->weight, Le * (4 * PI_ * cr), 1e-9, 1e-12), "direct-weight", [&] { return ctx("direct weight " + S(s->weight)); });
        c.check(near(s->weight * l->pdf_direct(r.g, s->geom, T, s->wo, false), l->eval(s->geom, s->wo, false), 1e-9), "direct-weight", [&] { return ctx("weight*density != emission"); });
        c.check(s->geom.infinite && near(s->geom.wo, s->wo, 1e-12), "infinite-geom", [&] { return ctx("not a point at infinity"); });
        return s->wo; }, "constant environment direct");
    c.nontrivial = true;
}

void env(Ctx& c) {
    const int W = c.in(1, 9), H = c.in(1, 9);
    std::vector<unsigned char> px(3 * W * H);
    const int mode = c.in(0, 3);    // random / sparse / black rows / constant
    const int cv = c.in(1, 255);
    std::vector<bool> black(H); if (mode == 2) for (int y = 0; y < H; y++) black[y] = c.coin();
    for (int i = 0; i < W * H; i++) for (int k = 0; k < 3; k++) px[3 * i + k] = (unsigned char)(mode == 3 ? cv : mode == 1 && !c.chance(.3) ? 0 : mode == 2 && black[i / W] ? 0 : c.in(0, 255));
    const bool flip = c.coin(); const double rot = c.chance(.3) ? 0 : c.nice(-360, 720), scale = c.chance(.3) ? 1 : c.logreal(.1, 10);
    const std::string f = c.scratch + "/env.ppm";
    FILE* o = fopen(f.c_str(), "wb"); fprintf(o, "P6\n%d %d\n255\n", W, H); fwrite(px.data(), 1, px.size(), o); fclose(o);
    Json prop = { {"path", f}, {"flip", flip} }; if (rot != 0) prop["rot"] = rot; if (scale != 1) prop["scale"] = scale;
    auto* l = get<Light>(asset("light", "light::env", prop));
    const Transform T(Mat4(1.0)); const Bound b = gen_bound(c); l->set_scene_bound(b);
    c.note("environment map ", W, "x", H, " mode ", mode, " rot ", s6(rot), " scale ", s6(scale), " flip ", flip); c.label("env");
    const auto ctx = [&](const std::string& s) { return s + " [environment map " + std::to_string(W) + "x" + std::to_string(H) + " mode " + std::to_string(mode) + " rot " + S(rot) + " scale " + S(scale) + " flip " + std::to_string(flip) + "]"; };
    c.check(!l->is_specular() && l->is_infinite() && l->is_env(), "flags", [&] { return ctx("flags"); });
    // Row 0 of the table is the first row when not flipped
    std::vector<Vec3> tx(W * H);
    for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) for (int k = 0; k < 3; k++) tx[y * W + x][k] = std::pow(px[3 * ((flip ? H - 1 - y : y) * W + x) + k] / 255.0, 2.2) * scale;
    const double rr = rot * PI_ / 180;
    const auto dir = [&](double x, double y) { const double t = PI_ * y / H, p = 2 * PI_ * x / W + rr; return Vec3(std::sin(t) * std::sin(p), std::cos(t), std::sin(t) * std::cos(p)); };
    const Receiver dg = { PointGeometry::make_degenerated(Vec3(0)), true }, r = gen_receiver(c, 6);
    // Density and emission per texel
    double sum = 0; std::vector<double> pmf(W * H); Vec3 total(0); double bound_total = 0;
    for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) {
        const double fx = x + .02 + .96 * c.unit(), fy = y + .02 + .96 * c.unit();
        const Vec3 d = dir(fx, fy); const auto gL = PointGeometry::make_infinite(-d); const double st = std::sin(PI_ * fy / H);
        const Vec3 e = l->eval(gL, -d, c.coin());
        c.check(near(e, tx[y * W + x], 1e-5, 1e-7), "env-texel", [&] { return ctx("emission from direction " + S(d) + " is " + S(e) + ", texel (" + std::to_string(x) + "," + std::to_string(y) + ") holds " + S(tx[y * W + x])); });
        const double p = l->pdf_direct(dg.g, gL, T, -d, c.coin()); const double m = p * 2 * PI_ * PI_ * st / (W * H);
        c.check(std::isfinite(p) && p >= 0, "env-density-value", [&] { return ctx("density " + S(p) + " for texel (" + std::to_string(x) + "," + std::to_string(y) + ")"); });
        pmf[y * W + x] = m; sum += m;
        const double mx = std::max({ tx[y * W + x].x, tx[y * W + x].y, tx[y * W + x].z });
        c.check(mx == 0 || m > 0, "env-density-zero", [&] { return ctx("emitting texel (" + std::to_string(x) + "," + std::to_string(y) + ") has density 0"); });
        const double omega = 2 * PI_ / W * (std::cos(PI_ * y / H) - std::cos(PI_ * (y + 1) / H)); total += tx[y * W + x] * omega;
        if (mx > 0) bound_total = std::max(bound_total, mx * 2 * PI_ * PI_ / (W * H) / m);
        if (!r.degenerate && std::fabs(dot_(d, r.g.n)) > 1e-6) { const double q = l->pdf_direct(r.g, gL, T, -d, false); c.check(near(q * std::fabs(dot_(d, r.g.n)), p, 1e-9), "env-density-proj", [&] { return ctx("projected density " + S(q) + " vs " + S(p)); }); }
    }
    const bool dark = std::max({ total.x, total.y, total.z }) == 0;
    c.check(dark ? sum == 0 : near(sum, 1, 1e-6), "env-density-sum", [&] { return ctx("densities of all texels sum to " + S(sum)); });
    // Poles and seams never give anything undefined
    for (int k = 0; k < 6; k++) {
        Vec3 d = k < 2 ? Vec3(0, k ? 1 : -1, 0) : unit(Vec3(c.real(-1, 1) * std::pow(10., -c.in(0, 9)), c.coin() ? 1 : -1, c.real(-1, 1) * std::pow(10., -c.in(0, 9))));
        if (k == 5) d = dir(c.in(0, W), c.in(0, H));
        if (c.coin()) d *= 1 + 2.2204460492503131e-16;  // unit only up to rounding, as normalisation leaves it
        const auto gL = PointGeometry::make_infinite(-d); const Vec3 e = l->eval(gL, -d, false); const double p = l->pdf_direct(dg.g, gL, T, -d, false);
        bool some = false; const double vv = std::acos(std::max(-1.0, std::min(1.0, d.y))) / PI_ * H;
        for (int y = std::max(0, int(vv - 1e-6)); y <= std::min(H - 1, int(vv + 1e-6)); y++) for (int x = 0; x < W; x++) some |= near(e, tx[y * W + x], 1e-5, 1e-7);
        c.check(some && std::isfinite(p) && p >= 0, "env-pole", [&] { return ctx("direction " + S(d) + ": emission " + S(e) + " density " + S(p)); });
    }
    // Sampler
    const int N = 4096; std::vector<int> cnt(W * H); Vec3 mean(0); int nz = 0; LD4 q(c.unit());
    double mu = 0, mv = 0, mu2 = 0, mv2 = 0;
    for (int k = 0; k < N; k++) {
        q.next(); const int a = k / 64, bq = k % 64;
        const Vec2 ud((a + .5) / 64, (bq + .5) / 64), up(.001 + .998 * q.x[0], .001 + .998 * q.x[1]);
        const auto s = l->sample_direct({ up, q.x[2], ud }, dg.g, T);
        if (!s) continue;
        const Vec3 d = -s->wo; const double p = l->pdf_direct(dg.g, s->geom, T, s->wo, false);
        c.check(p > 0 && near(s->weight * p, l->eval(s->geom, s->wo, false), 1e-6, 1e-9) && finite(s->weight), "direct-weight", [&] { return ctx("direct weight " + S(s->weight) + " density " + S(p) + " emission " + S(l->eval(s->geom, s->wo, false))); });
        c.check(s->geom.infinite && near(s->geom.wo, s->wo, 1e-12), "infinite-geom", [&] { return ctx("not a point at infinity"); });
        double u = (std::atan2(d.x, d.z) - rr) / (2 * PI_); u -= std::floor(u); const double v = std::acos(std::max(-1.0, std::min(1.0, d.y))) / PI_;
        const int x = std::min(W - 1, int(u * W)), y = std::min(H - 1, int(v * H)); cnt[y * W + x]++; nz++;
        const double fu = u * W - x, fv = v * H - y; mu += fu; mv += fv; mu2 += fu * fu; mv2 += fv * fv;
        mean += s->weight / double(N);
    }
    if (!dark) {
        c.check(nz == N, "env-no-sample", [&] { return ctx("only " + std::to_string(nz) + " of " + std::to_string(N) + " draws gave a direction"); });
        for (int i = 0; i < W * H; i++) c.check(std::fabs(cnt[i] - pmf[i] * N) <= 64 * 2 + 70, "env-frequency", [&] { return ctx("texel " + std::to_string(i) + " drawn " + std::to_string(cnt[i]) + " of " + std::to_string(N) + ", density says " + S(pmf[i])); });
        {   // independent draws, compared at an error probability of about 1e-12
            pbt::Rand R(c.seed64()); const int n = 12000; std::vector<int> ct(W * H);
            for (int k = 0; k < n; k++) { const Vec2 a(R.u(), R.u()), bb(R.u(), R.u()); const double uc = R.u(); const auto s = l->sample_direct({ a, uc, bb }, dg.g, T); if (!s) continue; const Vec3 d = -s->wo;
                double u = (std::atan2(d.x, d.z) - rr) / (2 * PI_); u -= std::floor(u); const double v = std::acos(std::max(-1.0, std::min(1.0, d.y))) / PI_; ct[std::min(H - 1, int(v * H)) * W + std::min(W - 1, int(u * W))]++; }
            for (int i = 0; i < W * H; i++) c.check(std::fabs(ct[i] - pmf[i] * n) <= std::sqrt(56 * pmf[i] * n) + 22, "env-frequency", [&] { return ctx("texel " + std::to_string(i) + " drawn " + std::to_string(ct[i]) + " of " + std::to_string(n) + ", density says " + S(pmf[i])); });
        }
        mu /= nz; mv /= nz; mu2 /= nz; mv2 /= nz;
        c.check(std::fabs(mu - .5) < .03 && std::fabs(mv - .5) < .03 && std::fabs(mu2 - 1 / 3.) < .03 && std::fabs(mv2 - 1 / 3.) < .03, "env-texel-uniform", [&] { return ctx("positions inside texels have moments " + S(mu) + " " + S(mv)); });
        c.check(near(mean, total, .08, .03 * bound_total), "incident-radiance", [&] { return ctx("mean direct weight " + S(mean) + ", emission integrated over the sphere " + S(total)); });
    }
    check_disk(c, l, b, Vec2(c.unit_c(), c.unit_c()), 1 / (4 * PI_), ctx);
    c.nontrivial = true;
}

void run(Ctx& c) {
    lm::reset();
    switch (c.weighted({ 6, 2, 2, 2, 5 })) {
        case 0: area(c); break; case 1: point(c); break; case 2: directional(c); break; case 3: envconst(c); break; default: env(c);
    }
}
}

int main(int argc, char** argv) {
    pbt::Prop p;
    p.id = "P06";
    p.rule = "case = one generated light (area light over a random mesh under identity/rigid/uniform/general affine transform, point, directional, constant or image environment) with random emission, receiver and scene bound. Per case: densities at given points against own world-area/texel references, 2000-4000 stratified samples whose weight times density must equal the emission, selection frequencies and moments, and the mean direct weight against emission integrated over the exact solid angle. Non-trivial: every case not discarded for a degenerate mesh.";
    p.assumptions = { "area lights over meshes with flat normals at the queried point, total area >= 1e-3 of the squared size; sizes 1e-4..1e2", "affine transforms with scales 0.3..3", "environment maps up to 9x9 texels" };
    p.run = run; p.worker_init = init_lm;
    p.quick_cases = 60000; p.thorough_cases = 10000000; p.quick_s = 30; p.thorough_s = 600;
    return pbt::main(argc, argv, p);
}
