// P01: a ray query returns exactly the nearest surface hit (oracle: exhaustive search over the
// flattened triangles in extended precision; own composition of the transforms).
#include "lmgen.h"
using namespace lmgen;

namespace {

void run(Ctx& c) {
    lm::reset();
    GraphModel md;
    asset("acc", "accel::sahbvh", {});
    asset("mat", "material::diffuse", { {"Kd", Json::array({.5, .5, .5})} });
    auto* scene = get<Scene>(asset("scene", "scene::default", { {"accel", "$.assets.acc"} }));
    md.nodes.push_back({ true });

    const int nm = c.in(1, 3);
    const int max_tris = c.chance(.15) ? 300 : c.in(1, 40);
    gen_meshes(c, md, nm, max_tris);
    const int phases = c.chance(.25) ? 2 : 1;
    int total_checked = 0; bool saw_hit = false, saw_deep = false;
    for (int ph = 0; ph < phases; ph++) {
        const int change = ph == 0 ? 0 : c.weighted({ 3, 2, 2, 1 });
        if (change == 0) gen_graph(c, scene, md, c.in(1, 8));
        else if (change == 1) { // the same number of triangles elsewhere: meshes replaced
            for (size_t i = 0; i < md.meshes.size(); i++) if (i == 0 || c.coin()) { const Mat4 M = gen_transform(c, 3); for (auto& q : md.meshes[i].ps) q = xform_point(M, q); asset("mesh" + std::to_string(i), "mesh::raw", md.meshes[i].json()); }
            c.label("rebuilt-meshes");
        } else if (change == 2) { // the same graph entered again with other transforms
            const auto old = md.nodes; scene->reset();
            for (size_t i = 1; i < old.size(); i++) { auto& s = md.nodes[i]; if (int(i) == md.env_node) scene->create_primitive_node({ {"light", "$.assets.env"} }); else if (!s.group) scene->create_primitive_node({ {"mesh", "$.assets.mesh" + std::to_string(s.mesh)}, {"material", "$.assets.mat"} }); else if (s.instanced) scene->create_instance_group_node(); else { s.M = gen_transform(c, 3); scene->create_group_node(s.M); } }
            for (size_t i = 0; i < old.size(); i++) for (int ch : old[i].children) scene->add_child(int(i), ch);
            c.label("rebuilt-graph");
        } else { // from scratch
            scene->reset(); md.nodes.assign(1, NodeSpec{ true }); md.env = false; md.env_node = -1; gen_graph(c, scene, md, c.in(1, 8)); c.label("rebuilt-scratch");
        }
        if (ph + 1 == phases && c.chance(.12)) gen_far(c, scene, md);
        if (!md.env && c.chance(.3)) gen_env(scene, md);
        md.tris.clear(); md.flatten(0, Mat4(1.0));
        if (md.tris.empty()) { c.label("no-triangles"); }
        if (md.tris.size() > 3000) throw pbt::Discard{};
        scene->build();
        const int nrays = c.tier ? 60 : 40;
        for (int r = 0; r < nrays; r++) {
            Ray ray; Float tmin = Eps, tmax = Inf;
            ray.d = gen_dir(c);
            switch (md.tris.empty() ? 0 : c.weighted({ 2, 5, 2, 1 })) {
                case 0: ray.o = gen_vec(c, 8); break;
                case 1: { // aim at a random point of a random triangle
                    const auto& t = md.tris[c.raw(md.tris.size() - 1)];
                    double u = c.unit(), v = c.unit(); if (u + v > 1) { u = 1 - u; v = 1 - v; }
                    const Vec3 q = t.w[0] * (1 - u - v) + t.w[1] * u + t.w[2] * v;
                    ray.o = q - ray.d * c.logreal(.01, 50);
                    break;
                }
                case 2: { // start on a surface
                    const auto& t = md.tris[c.raw(md.tris.size() - 1)];
                    double u = c.unit(), v = c.unit(); if (u + v > 1) { u = 1 - u; v = 1 - v; }
                    ray.o = t.w[0] * (1 - u - v) + t.w[1] * u + t.w[2] * v; break;
                }
                default: { // through a vertex / along an edge
                    const auto& t = md.tris[c.raw(md.tris.size() - 1)];
                    ray.o = t.w[c.in(0, 2)] - ray.d * c.real(0, 5);
                }
            }
            if (too_far(ray.o)) { const Vec3 q = ray.o; ray.o = gen_vec(c, 8); if (c.coin()) ray.d = unit(q - ray.o); }
            const int rk = c.weighted({ 8, 4, 4, 1 });
            if (rk == 1) { tmin = c.real(0, 6); }
            else if (rk == 2) { tmin = c.coin() ? c.real(0, 6) : Eps; tmax = tmin + c.logreal(.01, 20); }
            else if (rk == 3) { const double big[] = { Inf - 1, 1e9, 6e9, 1e5 }; tmax = big[c.in(0, 3)]; }

            // Oracle
            const auto cand = crossings(md.tris, ray, tmin, tmax);
            LD tsure = 1e30L; for (auto& k : cand) if (k.sure) tsure = std::min(tsure, k.t);
            const auto where = [&](const std::string& s) {
                std::ostringstream o; o << s << " [tris=" << md.tris.size() << " ray.o=" << S(ray.o) << " ray.d=" << S(ray.d) << " tmin=" << S(tmin) << " tmax=" << S(tmax) << "]"; return o.str();
            };
            const auto hit = scene->intersect(ray, tmin, tmax);
            const auto ah = scene->accel()->intersect(ray, tmin, tmax);
            total_checked++;
            const bool geom_hit = hit && !hit->geom.infinite;
            c.check(bool(ah) == geom_hit, "accel-scene-disagree", [&] { return where("accel and scene disagree on whether there is a hit"); });
            if (!geom_hit) {
                c.check(tsure > 1e29L, "missed-hit", [&] { return where("no hit reported but triangle at t=" + S(double(tsure)) + " is crossed"); });
                const bool want_env = md.env && !(tmax < Inf);
                c.check(bool(hit) == want_env, "env", [&] { return where("environment reported wrongly"); });
                if (hit) {
                    c.check(hit->is_type(SceneInteraction::LightEndpoint) && hit->primitive == md.env_node && near(hit->geom.wo, -ray.d, 1e-12),
                        "env-geometry", [&] { return where("environment interaction is wrong"); });
                }
                if (cand.empty()) c.label("miss");
                continue;
            }
            saw_hit = true;
            c.label(tsure < 1e29L ? "hit" : "borderline-hit");
            c.check(ah->primitive == hit->primitive, "primitive-mismatch", [&] { return where("accel and scene primitives differ"); });
            // Find the reported triangle among the admissible candidates
            bool ok = false; std::string why = "reported triangle is not crossed by the ray in range"; 
            for (auto& k : cand) {
                const auto& t = md.tris[k.tri];
                if (t.node != ah->primitive || t.face != ah->face) continue;
                if (k.tiny) { const double sl = 4 * (glm::length(t.w[1] - t.w[0]) + glm::length(t.w[2] - t.w[0])) + 1e-6; if (std::fabs(double(ah->t - k.t)) < sl && !(ah->t > tsure + 1e-6)) { ok = true; break; } continue; }
                const LD scale = 1 + std::fabs(double(ray.o.x)) + std::fabs(double(ray.o.y)) + std::fabs(double(ray.o.z)) + std::fabs(double(k.t));
                Vec3 e1 = t.w[1] - t.w[0], e2 = t.w[2] - t.w[0];
                const double cond = std::sqrt(dot_(e1, e1) * dot_(e2, e2)) / std::max(1e-30, std::fabs(dot_(cross_(e1, e2), ray.d)));
                const LD tol = 1e-9L * scale * (1 + cond);
                if (std::fabs(double(ah->t - k.t)) > tol) { why = "distance is wrong: " + S(ah->t) + " expected " + S(double(k.t)); continue; }
                if (k.t > tsure + tol) { why = "a nearer triangle is crossed at t=" + S(double(tsure)) + ", reported t=" + S(ah->t); continue; }
                // Interpolated attributes
                const double u = double(k.u), v = double(k.v), w = 1 - u - v;
                const double il = 1 / (std::sqrt(dot_(e1, e1)) + 1e-30) + 1 / (std::sqrt(dot_(e2, e2)) + 1e-30);   // tiny triangles magnify rounding
                const double tu = 1e-9 * double(scale) * (1 + cond) * (100 + il);
                if (std::fabs(ah->uv.x - u) > tu || std::fabs(ah->uv.y - v) > tu) { why = "barycentric coordinates are wrong"; continue; }
                const Vec3 P = ray.o + ray.d * double(k.t);
                if (!near(hit->geom.p, P, 0, 1e-6 * double(scale) * (1 + cond))) { why = "position " + S(hit->geom.p) + " expected " + S(P); continue; }
                if (tu < 1e-3) {
                    const Vec2 T = t.t[0] * w + t.t[1] * u + t.t[2] * v;
                    if (!near(Vec3(hit->geom.t, 0), Vec3(T, 0), 0, 1e-6 + 10 * tu)) { why = "texture coordinates " + S(hit->geom.t) + " expected " + S(T); continue; }
                    const Vec3 N = xform_normal(t.M, unit(t.n[0] * w + t.n[1] * u + t.n[2] * v));
                    if (!near(hit->geom.n, N, 0, 1e-5 + 50 * tu)) { why = "shading normal " + S(hit->geom.n) + " expected " + S(N); continue; }
                }
                const Vec3 G = xform_normal(t.M, unit(tri_cross(t.p[0], t.p[1], t.p[2])));
                if (!near(hit->geom.gn, G, 0, 1e-6)) { why = "geometry normal " + S(hit->geom.gn) + " expected " + S(G); continue; }
                const auto& g = hit->geom;
                if (g.infinite || g.degenerated || !hit->is_type(SceneInteraction::SurfaceInteraction)) { why = "interaction kind is wrong"; continue; }
                if (!near(dot_(g.u, g.v), 0, 0, 1e-9) || !near(dot_(g.u, g.n), 0, 0, 1e-9) || !near(dot_(g.v, g.n), 0, 0, 1e-9) ||
                    !near(dot_(g.u, g.u), 1, 1e-9) || !near(dot_(g.v, g.v), 1, 1e-9) || !near(cross_(g.u, g.v), g.n, 0, 1e-9)) { why = "tangent frame is not right-handed orthonormal"; continue; }
                const Vec3 x(.3, -.7, .2);
                if (!near(g.to_world * x, g.u * x.x + g.v * x.y + g.n * x.z, 1e-9, 1e-9) || !near(g.to_local * (g.to_world * x), x, 1e-9, 1e-9)) { why = "local/world matrices are not the tangent frame"; continue; }
                ok = true; break;
            }
            if (!ok) for (auto& t : md.tris) if (t.node == ah->primitive && t.face == ah->face) why += " reported triangle " + S(t.w[0]) + S(t.w[1]) + S(t.w[2]);
            c.check(ok, "wrong-hit", [&] { return where("hit primitive=" + std::to_string(ah->primitive) + " face=" + std::to_string(ah->face) + " t=" + S(ah->t) + ": " + why); });
            if (cand.size() > 1) saw_deep = true;
        }
    }
    c.note("meshes=", nm, " nodes=", md.nodes.size(), " triangles=", md.tris.size(), " phases=", phases, " env=", md.env, " rays=", total_checked);
    c.nontrivial = saw_hit && saw_deep;
}

}

int main(int argc, char** argv) {
    pbt::Prop p;
    p.id = "P01";
    p.rule = "case = 1-3 generated meshes (soup, lattice with coplanar/degenerate faces, grid, box), a random acyclic scene graph with nested and repeated groups under general affine transforms, one or two build phases and 40-60 rays (random, aimed at triangles, from surfaces, through vertices; random valid ranges). Non-trivial: some ray hit a surface and some ray crossed at least two triangles in range.";
    p.assumptions = { "sizes 1e-7 to 1e7 looked at from where double precision resolves them, ray directions normalised", "hits within relative 1e-10 of an edge, of the range ends, or with |det|<1e-7 may be reported either way" };
    p.run = run; p.worker_init = init_lm;
    p.quick_cases = 60000; p.thorough_cases = 4000000; p.quick_s = 35; p.thorough_s = 900;
    return pbt::main(argc, argv, p);
}
