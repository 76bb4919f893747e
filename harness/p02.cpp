// P02: two points are mutually visible exactly when nothing crosses the segment between them.
#include "lmgen.h"
using namespace lmgen;

namespace {

void run(Ctx& c) {
    lm::reset();
    GraphModel md;
    asset("acc", "accel::sahbvh", {});
    asset("mat", "material::diffuse", { {"Kd", Json::array({.5, .5, .5})} });
    auto* scene = get<Scene>(asset("scene", "scene::default", { {"accel", "$.assets.acc"} }));
    md.nodes.push_back({ true });
    gen_meshes(c, md, c.in(1, 2), c.chance(.1) ? 200 : c.in(1, 25));
    gen_graph(c, scene, md, c.in(1, 6));
    if (c.chance(.12)) gen_far(c, scene, md);
    if (c.chance(.4)) gen_env(scene, md);
    md.flatten(0, Mat4(1.0));
    if (md.tris.size() > 2000) throw pbt::Discard{};
    scene->build();
    bool any_vis = false, any_occ = false; int undecided = 0;
    const auto gen_point = [&](bool allow_inf, std::string& kind) -> SceneInteraction {
        const int k = md.tris.empty() ? 2 * c.in(0, 1) + 1 : c.weighted({ 5, 3, 1, allow_inf ? 2 : 0 });
        if (k == 3 && allow_inf) {
            const Vec3 wo = gen_dir(c); kind = "infinite";
            return SceneInteraction::make_light_endpoint(0, c.coin() ? PointGeometry::make_infinite(wo) : PointGeometry::make_infinite(wo, gen_vec(c, 20)));
        }
        if (k == 0 || k == 2) {
            const auto& t = md.tris[c.raw(md.tris.size() - 1)];
            double u = c.unit(), v = c.unit(); if (u + v > 1) { u = 1 - u; v = 1 - v; }
            const Vec3 p = t.w[0] * (1 - u - v) + t.w[1] * u + t.w[2] * v;
            Vec3 g = tri_cross(t.w[0], t.w[1], t.w[2]); const double l = std::sqrt(dot_(g, g)); g = l > 1e-12 ? g / l : Vec3(0, 0, 1);
            kind = "surface";
            if (k == 2) { // slightly off a surface, on either side
                const Vec3 q = p + g * (c.coin() ? 1. : -1.) * c.logreal(1e-3, .5);
                kind = "off-surface";
                return SceneInteraction::make_medium_interaction(0, PointGeometry::make_degenerated(q));
            }
            return SceneInteraction::make_surface_interaction(t.node, PointGeometry::make_on_surface(p, g));
        }
        kind = "free";
        const auto geom = PointGeometry::make_degenerated(gen_vec(c, 7));
        return c.coin() ? SceneInteraction::make_camera_endpoint(0, geom) : SceneInteraction::make_light_endpoint(0, geom);
    };
    for (int i = 0; i < 40; i++) {
        std::string k1, k2;
        const auto a = gen_point(true, k1), b = gen_point(!a.geom.infinite, k2);
        const auto& f = a.geom.infinite ? b : a;    // finite one
        const auto& o = a.geom.infinite ? a : b;
        if (too_far(f.geom.p) || (!o.geom.infinite && too_far(o.geom.p))) continue;
        const bool v1 = scene->visible(a, b), v2 = scene->visible(b, a);
        bool must_false = false, must_true = true;
        double d = -1; Vec3 dir; std::string block;
        if (o.geom.infinite) {
            dir = -o.geom.wo;
            for (auto& k : crossings(md.tris, Ray{ f.geom.p, dir }, 0, 1e9)) {
                if (k.sure && k.t > 1.01e-3) { must_false = true; block = S(double(k.t)); }
                if (k.t > .99e-3) must_true = false;
            }
        } else {
            dir = o.geom.p - f.geom.p; d = std::sqrt(dot_(dir, dir));
            if (d < 1e-2) continue;
            dir = dir / d;
            const double hi = 1.02e-3 * std::max(1., d), lo = .98e-3 * std::min(1., d);
            for (auto& k : crossings(md.tris, Ray{ f.geom.p, dir }, -1, d + 1)) {
                // Rounding of the end point moves the crossing by about cond*1e-15; `crossings` covers it in its margins.
                if (k.t > hi && k.t < d - hi) { must_true = false; if (k.sure) { must_false = true; block = S(double(k.t)); } }
                else if (k.t > lo && k.t < d - lo) must_true = false;
                else {
                    // near an end, outside the segment, or at the end itself: must not occlude. Grazing crossings have no
                    // well-defined distance; leave these undecided.
                    const auto& t = md.tris[k.tri];
                    const Vec3 e1 = t.w[1] - t.w[0], e2 = t.w[2] - t.w[0];
                    const double cond = std::sqrt(dot_(e1, e1) * dot_(e2, e2)) / std::max(1e-30, std::fabs(dot_(cross_(e1, e2), dir)));
                    if (cond > 1e6) must_true = false;
                }
            }
        }
        const auto where = [&](const std::string& s) {
            std::ostringstream q; q << s << " [" << k1 << "/" << k2 << " p=" << S(f.geom.p) << (o.geom.infinite ? " towards " : " q=") << S(o.geom.infinite ? dir : o.geom.p)
                << " dist=" << d << " tris=" << md.tris.size() << "]"; return q.str();
        };
        if (must_false) {
            any_occ = true; c.label("occluded");
            c.check(!v1 && !v2, "occluder-missed", [&] { return where("reported visible but a triangle crosses the segment at t=" + block); });
        } else if (must_true) {
            any_vis = true; c.label("visible");
            c.check(v1 && v2, "false-occlusion", [&] { return where("reported occluded but no triangle crosses the open segment"); });
        } else { undecided++; c.label("undecided"); }
        if (k1 == "infinite" || k2 == "infinite") c.label("infinite");
    }
    c.note("triangles=", md.tris.size(), " env=", md.env, " undecided=", undecided);
    c.nontrivial = any_vis && any_occ;
}

}

int main(int argc, char** argv) {
    pbt::Prop p;
    p.id = "P02";
    p.rule = "case = generated meshes and scene graph (as P01) and 40 point pairs: points on triangles, just off triangles, free points, points at infinity. Non-trivial: the case contains both a decided visible and a decided occluded pair.";
    p.assumptions = { "blockers within the scene epsilon (1e-3 absolute or relative to the distance) of an end point are undecided", "point pairs closer than 1e-2 are skipped" };
    p.run = run; p.worker_init = init_lm;
    p.quick_cases = 50000; p.thorough_cases = 4000000; p.quick_s = 30; p.thorough_s = 900;
    return pbt::main(argc, argv, p);
}
