// P17: saved and reloaded state behaves identically.
#include "asmgen.h"
#include <lm/scheduler.h>
#include <lm/serial.h>
using namespace asmgen;

namespace {
std::string bytes(const std::string& path) { const auto b = imgio::read(path); return std::string(b.begin(), b.end()); }
void save_file(Component* p, const std::string& path) { std::ofstream os(path, std::ios::out | std::ios::binary); lm::serial::save_comp_owned(os, p, p->loc()); }

std::string key_of(const std::string& d) { // component key of the first differing line
    size_t i = d.find('.'); if (d.compare(0, 3, "s1.") == 0 || d.compare(0, 3, "s2.") == 0) i = d.find('.', 3); if (d.compare(0, 5, "s1.t.") == 0) i = d.find('.', 5);
    return i == std::string::npos ? d : d.substr(0, i); }

// Schedulers are parts of renderers; here one is saved and reloaded on its own.
void sched(Ctx& c) {
    lm::reset(); lm::parallel::init("openmp", { {"num_threads", 1} });
    const int w = c.in(1, 6), h = c.in(1, 6), kind = c.in(0, 3); asset("film", "film::bitmap", { {"w", w}, {"h", h} });
    const char* keys[] = { "scheduler::spp::sample", "scheduler::spp::time", "scheduler::spi::sample", "scheduler::spi::time" };
    const std::string key = keys[kind]; const long long n = c.in(1, 40), per = c.in(7, 900); const double T = c.real(0, .01);
    Json p = { {"output", "$.assets.film"}, {"spp", n}, {"num_samples", n}, {"render_time", T}, {"samples_per_iter", per} };
    c.note(key, " ", p.dump());
    asset("sched", key, p);
    lm::save_state_to_file(c.scratch + "/saved"); lm::reset(); lm::load_state_from_file(c.scratch + "/saved");
    auto* q = lm::comp::get<lm::scheduler::Scheduler>("$.assets.sched");
    c.check(q && q->key() == key, "sched-reload", [&] { return key + " is not what was reloaded"; });
    std::set<std::pair<long long, long long>> seen; long long calls = 0; const double t0 = pbt::now();
    const long long r = q->run([&](long long px, long long sm, int) { calls++; if (seen.size() < 100000) seen.insert({ px, sm }); if (pbt::now() - t0 > 5) throw std::runtime_error("does not end"); });
    const double el = pbt::now() - t0; const long long npix = kind < 2 ? w * h : 1;
    const bool ok = calls == npix * r && (kind % 2 == 0 ? r == n : el > T - 2e-3 && r > 0 && (kind == 1 || r % per == 0));
    c.check(ok, "sched:" + key, [&] { return key + " " + p.dump() + " reloaded: " + std::to_string(calls) + " samples, returned " + std::to_string(r) + " after " + S(el) + " s for " + std::to_string(w * h) + " pixels"; });
    c.label("single-" + key); c.nontrivial = true;
}
void run(Ctx& c) {
    if (c.chance(.02)) return sched(c);
    lm::reset();
    lm::parallel::init("openmp", { {"num_threads", 1} });
    const bool rend = c.chance(.5);
    auto a = gen(c, rend); if (c.chance(.4)) nest(c, a);
    const int mode = c.weighted({ 4, 3, 4 }); // whole state, group under another name, single component
    std::string desc; for (auto& s : a.as) desc += s.name + "=" + s.key + " ";
    if (getenv("PBT_VERBOSE")) for (auto& s : a.as) { desc += s.prop.dump() + " "; auto it = a.ops.find(s.name); if (it != a.ops.end()) desc += it->second.dump(); }
    c.note(mode == 0 ? "state: " : mode == 1 ? "group: " : "single: ", desc);
    const std::string path = c.scratch + "/saved", path2 = c.scratch + "/saved2";
    const auto report = [&](const std::string& what, const FP& x, const FP& y) {
        const auto d = diff(x, y); if (d.empty()) return;
        const std::string n = key_of(d); const auto* s = a.find(n.substr(0, n.find(':')));
        c.fail(what + (s ? ":" + s->key : ""), what + ": " + d + "  [" + (s ? s->key + " " + s->prop.dump() : "") + "]");
    };
    if (mode == 0) {
        auto* g = lm::assets(); load_all(g, a);
        lm::save_state_to_file(path); lm::save_state_to_file(path2);
        c.check(bytes(path) == bytes(path2), "save-twice", [&] { return std::string("saving twice gives different bytes"); });
        const auto f0 = fingerprint_all(g, a);
        if (c.coin()) lm::reset();
        if (c.coin()) lm::assets()->load_asset("film99", "film::bitmap", { {"w", 1}, {"h", 1} });
        lm::load_state_from_file(path);
        c.check(!lm::comp::get<Component>("$.assets.film99"), "stale-asset", [&] { return std::string("an asset that was not saved is still there"); });
        report("state", f0, fingerprint_all(lm::assets(), a));
        // and once more from the reloaded state
        if (c.coin()) {
            lm::load_state_from_file(path); lm::save_state_to_file(path2); lm::reset(); lm::load_state_from_file(path2);
            report("state-again", f0, fingerprint_all(lm::assets(), a));
        }
        c.label("state");
    } else {
        auto* g = dynamic_cast<AssetGroup*>(lm::assets()->load_asset("g", "asset_group::default", Json::object())); load_all(g, a);
        if (mode == 1) {
            save_file(g, path); save_file(g, path2);
            c.check(bytes(path) == bytes(path2), "save-twice", [&] { return std::string("saving twice gives different bytes"); });
            const auto f0 = fingerprint_all(g, a);
            const bool keep = c.coin(); if (!keep) lm::reset();
            AssetGroup* at = lm::assets(); const int depth = c.in(0, 2);
            for (int i = 0; i < depth; i++) at = dynamic_cast<AssetGroup*>(at->load_asset("n" + std::to_string(i), "asset_group::default", Json::object()));
            const std::string nm = !keep && c.coin() ? "g" : c.pick(std::vector<std::string>{ "h", "g2", "gg" });
            auto* h = dynamic_cast<AssetGroup*>(at->load_serialized(nm, path));
            c.check(h && h == lm::comp::get<Component>(at->loc() + "." + nm), "reload", [&] { return std::string("loaded group is not registered at its locator"); });
            report("group", f0, fingerprint_all(h, a));
            c.label(keep ? "group-copy" : "group-move");
        } else {
            const auto& s = a.as[c.in(0, int(a.as.size()) - 1)]; auto* p = lm::comp::get<Component>(g->loc() + "." + s.name);
            std::set<std::string> rs; refs(s.prop, rs); auto it = a.ops.find(s.name); if (it != a.ops.end()) refs(it->second, rs);
            const bool outer = !rs.empty();     // references always go to other assets of the group
            bool saved = true; try { save_file(p, path); } catch (const lm::Exception&) { saved = false; }
            c.note(s.key, outer ? " with" : " without", " outer references");
            c.check(saved != outer, outer ? "outer-saved:" + s.key : "save-failed:" + s.key, [&] { return std::string(outer ? "saving a component that refers to assets outside of it succeeded: " : "saving a self-contained component failed: ") + s.key + " " + s.prop.dump() + " named " + s.name; });
            if (saved) {
                save_file(p, path2);
                c.check(bytes(path) == bytes(path2), "save-twice", [&] { return std::string("saving twice gives different bytes"); });
                FP x; x.base = p->loc(); fingerprint(x, "a", p);
                const bool keep = c.coin(); if (!keep) lm::reset();
                auto* q = lm::assets()->load_serialized("zz", path);
                c.check(q && q->key() == s.key && q->loc() == "$.assets.zz" && lm::comp::get<Component>("$.assets.zz") == q, "reload", [&] { return std::string("reloaded component is not at its place: ") + s.key; });
                FP y; y.base = q->loc(); fingerprint(y, "a", q);
                for (auto* f : { &x, &y }) f->l[0] = "";      // the name differs
                const auto d = diff(x, y);
                c.check(d.empty(), "single:" + s.key, [&] { return s.key + " " + s.prop.dump() + ": " + d; });
                // bytes of the reloaded instance, where no hash table is involved
                if (s.kind != "model" && s.kind != "scene") { save_file(q, path2); c.check(bytes(path) == bytes(path2), "bytes:" + s.key, [&] { return std::string("saving the reloaded component gives other bytes: ") + s.key; }); }
            }
            c.label("single-" + s.key);
        }
    }
    for (auto& s : a.as) c.label(s.key);
    c.nontrivial = mode == 2 || a.as.size() >= 3;
}
}
int main(int argc, char** argv) {
    pbt::Prop p; p.id = "P17";
    p.rule = "case = generated assembly of assets of all built-in kinds with references among them (scenes with nested groups, lights, media, models; films with content; renderers), saved and reloaded as whole state, as a group under another name and depth (with or without the original still present), or as a single component; every query of every component (and renders with fixed seed) compared bit by bit, and references compared by target. Non-trivial: at least three assets, or a single-component round trip.";
    p.assumptions = { "components written in Python are not included" };
    p.run = run; p.worker_init = init_lm; p.quick_cases = 400000; p.thorough_cases = 30000000; p.quick_s = 30; p.thorough_s = 400; p.case_timeout = 30;
    return pbt::main(argc, argv, p);
}
