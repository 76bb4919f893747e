// P07: pinhole camera — rays, raster positions, densities and matrices describe one projective mapping.
#include "matgen.h"
using namespace lmgen;

namespace {
const double PI_ = 3.14159265358979323846;
double len(Vec3 v) { return std::sqrt(dot_(v, v)); }

LD solid_angle(Vec3 a, Vec3 b, Vec3 c) {
    const LD det = dot_(a, cross_(b, c)), den = 1 + (LD)dot_(a, b) + (LD)dot_(a, c) + (LD)dot_(b, c);
    return 2 * std::atan2(std::fabs(det), den);
}

void run(Ctx& c) {
    lm::reset();
    const Vec3 pos = gen_vec(c, 10); Vec3 u, v, w, center(0), up(0);
    const double vfov = c.chance(.2) ? c.pick(std::vector<double>{ 30, 60, 90, 120 }) : c.real(1, 175), aspect = c.chance(.2) ? 1 : c.logreal(.2, 5);
    Json prop = { {"vfov", vfov}, {"aspect", aspect} };
    const bool matrix = c.chance(.3);
    if (matrix) {
        // columns: left, up, forward, position
        w = gen_dir(c); Vec3 h = gen_dir(c); if (len(cross_(h, w)) < 1e-2) throw pbt::Discard{};
        u = unit(cross_(h, w)); v = cross_(w, u);
        Mat4 M(1.0); for (int i = 0; i < 3; i++) { M[0][i] = -u[i]; M[1][i] = v[i]; M[2][i] = -w[i]; M[3][i] = pos[i]; }
        Json a = Json::array();
        Json m = M; prop["matrix"] = m;
        c.label("matrix");
    } else {
        const Vec3 dir = gen_dir(c); const double dist = c.logreal(.05, 50); center = pos + dir * dist; up = gen_dir(c) * c.logreal(.1, 10);
        w = unit(pos - center); if (len(cross_(unit(up), w)) < 1e-2) throw pbt::Discard{};
        u = unit(cross_(up, w)); v = cross_(w, u);
        prop["position"] = J(pos); prop["center"] = J(center); prop["up"] = J(up);
        c.label("look-at");
    }
    auto* cam = get<Camera>(asset("camera", "camera::pinhole", prop));
    double asp = aspect;
    if (c.chance(.3)) { asp = c.logreal(.2, 5); cam->set_aspect_ratio(asp); c.label("set-aspect"); }
    const double tf = std::tan(vfov * PI_ / 360);
    c.note(matrix ? "matrix" : "look-at", " camera at ", s6(pos), " u=", s6(u), " v=", s6(v), " vfov=", s6(vfov), " aspect=", s6(asp));
    const auto ctx = [&](const std::string& s) { return s + " [camera at " + S(pos) + " u=" + S(u) + " v=" + S(v) + " w=" + S(w) + " vfov=" + S(vfov) + " aspect=" + S(asp) + (matrix ? " matrix form" : "") + "]"; };
    const double A = 4 * tf * tf * asp;
    const auto geomE = PointGeometry::make_degenerated(pos);
    const auto ref_dir = [&](Vec2 rp) { return unit(u * (asp * tf * (2 * rp.x - 1)) + v * (tf * (2 * rp.y - 1)) - w); };
    // raster -> ray -> raster
    for (int k = 0; k < 24; k++) {
        const Vec2 rp(c.unit_c(), c.unit_c());
        const Ray r = cam->primary_ray(rp);
        c.check(near(r.o, pos, 1e-12) && near(len(r.d), 1.0, 1e-12), "ray", [&] { return ctx("ray origin " + S(r.o) + " |d|=" + S(len(r.d))); });
        c.check(near(r.d, ref_dir(rp), 0, 1e-9), "ray-direction", [&] { return ctx("ray direction " + S(r.d) + ", expected " + S(ref_dir(rp)) + " for raster position " + S(rp)); });
        const auto b = cam->raster_position(r.d);
        const bool edge = std::min({ rp.x, rp.y, 1 - rp.x, 1 - rp.y }) < 1e-9;
        if (!b) c.check(edge, "raster-none", [&] { return ctx("no raster position for the ray through " + S(rp)); });
        else c.check(std::fabs(b->x - rp.x) < 1e-8 && std::fabs(b->y - rp.y) < 1e-8, "raster-roundtrip", [&] { return ctx("ray through " + S(rp) + " maps back to " + S(*b)); });
    }
    // arbitrary directions
    for (int k = 0; k < 24; k++) {
        Vec3 d = gen_dir(c);
        if (k % 3 == 1) d = ref_dir(Vec2(c.real(-.5, 1.5), c.real(-.5, 1.5)));
        if (k % 3 == 2) d = -ref_dir(Vec2(c.unit(), c.unit()));    // behind
        const LD x = dot_(d, u), y = dot_(d, v), z = dot_(d, w);
        const auto b = cam->raster_position(d); const double p = cam->pdf_direction(geomE, d); const Vec3 e = cam->eval(d); const double pr = cam->pdf_ray(geomE, d);
        if (std::fabs(double(z)) < 1e-9) continue;
        const double rx = double(-x / z / tf / asp) * .5 + .5, ry = double(-y / z / tf) * .5 + .5;
        const double m = 1e-8 * (1 + std::fabs(rx) + std::fabs(ry));
        if (z < 0 && std::min({ std::fabs(rx), std::fabs(1 - rx), std::fabs(ry), std::fabs(1 - ry) }) < m) continue;
        const bool in = z < 0 && rx > 0 && rx < 1 && ry > 0 && ry < 1;
        const double want = in ? double(1 / (A * -(z * z * z))) : 0;
        c.check(bool(b) == in, "view", [&] { return ctx("direction " + S(d) + (in ? " inside the view has no raster position" : " outside the view has a raster position")); });
        if (b) c.check(std::fabs(b->x - rx) < m && std::fabs(b->y - ry) < m, "raster", [&] { return ctx("direction " + S(d) + " maps to " + S(*b) + ", expected " + S(Vec2(rx, ry))); });
        c.check(near(p, want, 1e-7) && near(pr, want * cam->pdf_position(geomE), 1e-7), "density", [&] { return ctx("density " + S(p) + " / " + S(pr) + ", expected " + S(want)); });
        c.check(near(e, Vec3(want), 1e-7), "importance", [&] { return ctx("importance " + S(e) + ", expected " + S(want)); });
        if (in) c.label("inside"); else c.label("outside");
    }
    // the density integrates to one over the image (own solid angles of raster cells)
    {
        const int K = 24; LD sum = 0;
        for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) {
            const auto q = [&](double a, double b) { return cam->primary_ray(Vec2((i + a) / K, (j + b) / K)).d; };
            const LD om = solid_angle(q(0, 0), q(1, 0), q(1, 1)) + solid_angle(q(0, 0), q(1, 1), q(0, 1));
            sum += om * cam->pdf_direction(geomE, q(.5, .5));
        }
        if (vfov < 120 && asp < 3) c.check(std::fabs(double(sum) - 1) < .02, "density-integral", [&] { return ctx("density integrates to " + S(double(sum))); });
    }
    // samplers
    for (int k = 0; k < 12; k++) {
        const Vec2 ud(c.unit(), c.unit());
        const auto s = cam->sample_ray({ ud }); const auto s2 = cam->sample_direction({ ud }, geomE); const auto sp = cam->sample_position({ Vec2(c.unit(), c.unit()) });
        c.check(s && s2 && sp, "no-sample", [&] { return ctx("sampler returned nothing"); }); if (!s || !s2 || !sp) return;
        c.check(s->geom.degenerated && near(s->geom.p, pos, 1e-12) && near(sp->geom.p, pos, 1e-12) && sp->geom.degenerated, "sample-position", [&] { return ctx("sampled position"); });
        const auto rp = cam->raster_position(s->wo);
        if (rp) c.check(near(s->weight * cam->pdf_ray(s->geom, s->wo), cam->eval(s->wo), 1e-7), "sample-weight", [&] { return ctx("ray weight " + S(s->weight)); });
        if (cam->raster_position(s2->wo)) c.check(near(s2->weight * cam->pdf_direction(geomE, s2->wo), cam->eval(s2->wo), 1e-7), "sample-weight", [&] { return ctx("direction weight " + S(s2->weight)); });
        c.check(near(sp->weight * cam->pdf_position(sp->geom), Vec3(1), 1e-9), "sample-weight", [&] { return ctx("position weight"); });
    }
    {   // samples are uniform over the image
        const int K = 16; double m[5] = {}; int in = 0;
        for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) {
            const auto s = cam->sample_ray({ Vec2((i + .5) / K, (j + .5) / K) }); const auto rp = s ? cam->raster_position(s->wo) : std::nullopt; if (!rp) continue;
            in++; m[0] += rp->x; m[1] += rp->y; m[2] += rp->x * rp->x; m[3] += rp->y * rp->y; m[4] += rp->x * rp->y;
        }
        c.check(in == K * K, "sample-outside", [&] { return ctx("sampled rays outside the image"); });
        for (double& x : m) x /= in;
        c.check(std::fabs(m[0] - .5) < .03 && std::fabs(m[1] - .5) < .03 && std::fabs(m[2] - 1 / 3.) < .03 && std::fabs(m[3] - 1 / 3.) < .03 && std::fabs(m[4] - .25) < .03, "sample-distribution", [&] { return ctx("sampled rays are not uniform over the image"); });
    }
    // direct connection
    for (int k = 0; k < 8; k++) {
        Vec3 d = k & 1 ? ref_dir(Vec2(c.unit(), c.unit())) : gen_dir(c); const double D = c.logreal(.05, 50);
        const bool deg = c.chance(.3); const Vec3 n = gen_dir(c), p = pos + d * D;
        const auto g = deg ? PointGeometry::make_degenerated(p) : PointGeometry::make_on_surface(p, n, n);
        const double cr = deg ? 1 : std::fabs(dot_(n, d)); if (cr < 1e-5) continue;
        const double z = dot_(d, w); if (std::fabs(z) < 1e-6) continue;
        const double rx = -dot_(d, u) / z / tf / asp * .5 + .5, ry = -dot_(d, v) / z / tf * .5 + .5;
        if (std::min({ std::fabs(rx), std::fabs(1 - rx), std::fabs(ry), std::fabs(1 - ry) }) < 1e-6) continue;
        const auto s = cam->sample_direct({ Vec2(c.unit(), c.unit()) }, g); const double pd = cam->pdf_direct(g, geomE, d);
        c.check(near(pd, D * D / cr, 1e-6), "direct-density", [&] { return ctx("direct density " + S(pd) + ", expected " + S(D * D / cr)); });
        const Vec3 e = cam->eval(d);
        if (s) {
            c.check(near(s->wo, d, 0, 1e-6) && near(s->geom.p, pos, 1e-12), "direct-direction", [&] { return ctx("direct direction " + S(s->wo) + ", expected " + S(d)); });
            c.check(near(s->weight * pd, e, 1e-5, 1e-12), "direct-weight", [&] { return ctx("direct weight " + S(s->weight) + " times density " + S(pd) + " is not the importance " + S(e) + " in direction " + S(d)); });
        } else c.check(e == Vec3(0), "direct-none", [&] { return ctx("no direct sample for a visible point"); });
        c.check(!cam->sample_direct({ Vec2(.5, .5) }, PointGeometry::make_infinite(d)) && cam->pdf_direct(PointGeometry::make_infinite(d), geomE, d) == 0, "direct-infinite", [&] { return ctx("direct connection from infinity"); });
    }
    // matrices
    {
        const Mat4 V = cam->view_matrix(), Pm = cam->projection_matrix();
        for (int k = 0; k < 6; k++) {
            const Vec3 p = pos + gen_dir(c) * c.logreal(.1, 20), q = p - pos;
            const Vec3 e = xform_point(V, p), want(dot_(q, u), dot_(q, v), dot_(q, w));
            c.check(near(e, want, 1e-7, 1e-7), "view-matrix", [&] { return ctx("view matrix maps " + S(p) + " to " + S(e) + ", expected " + S(want)); });
            if (want.z > -1e-3) continue;
            double cl[4]; for (int i = 0; i < 4; i++) cl[i] = Pm[0][i] * e.x + Pm[1][i] * e.y + Pm[2][i] * e.z + Pm[3][i];
            const double rx = cl[0] / cl[3] * .5 + .5, ry = cl[1] / cl[3] * .5 + .5;
            const auto b = cam->raster_position(unit(q));
            const double tol = 1e-6 * (1 + std::fabs(rx) + std::fabs(ry));
            if (b) c.check(std::fabs(b->x - rx) < tol && std::fabs(b->y - ry) < tol, "projection-matrix", [&] { return ctx("projection maps " + S(p) + " to " + S(Vec2(rx, ry)) + ", raster position " + S(*b)); });
            else c.check(rx < tol || rx > 1 - tol || ry < tol || ry > 1 - tol, "projection-matrix", [&] { return ctx("projection maps a point outside the view into it"); });
        }
    }
    // reported settings describe the camera
    {
        const Json j = cam->underlying_value("");
        const auto vec = [&](const char* k) { return Vec3(j[k][0].get<double>(), j[k][1].get<double>(), j[k][2].get<double>()); };
        const Vec3 e = vec("eye"), ce = vec("center"), uu = vec("up");
        const Vec3 w2 = unit(e - ce), u2 = unit(cross_(uu, w2));
        c.check(near(e, pos, 1e-12) && near(w2, w, 0, 1e-7) && near(u2, u, 0, 1e-6) && near(j["vfov"].get<double>(), vfov, 1e-12) && near(j["aspect"].get<double>(), asp, 1e-12), "settings", [&] { return ctx("reported settings " + j.dump()); });
    }
    c.nontrivial = true;
}
}

int main(int argc, char** argv) {
    pbt::Prop p;
    p.id = "P07";
    p.rule = "case = one pinhole camera (look-at or matrix form, optionally re-set aspect ratio) with 24 raster positions (corners included), 24 directions inside/outside/behind, 12 sampler runs, 8 direct connections and 6 points through the matrices, all against an own projective model in world space; plus the density integral over the image. Non-trivial: every case not discarded for a degenerate up vector.";
    p.assumptions = { "vertical field of view 1..175 degrees, aspect 0.2..5", "up vector at least 0.01 rad away from the viewing direction", "matrix form: rigid matrices" };
    p.run = run; p.worker_init = init_lm;
    p.quick_cases = 300000; p.thorough_cases = 20000000; p.quick_s = 25; p.thorough_s = 600;
    return pbt::main(argc, argv, p);
}
