#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] ...

Builds /repo's current working tree plus the property's harness, runs the generated-input search and
exits 0 (held) or 1 (VIOLATION line). Tier and seed default to VERIF_TIER / VERIF_SEED.
"""
import json, os, subprocess, sys, time, tempfile
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import build

# property: (harness sources, variant, plugins, pylm)
CHECKS = {
}
exec(open(os.path.join(VERIF, "checks.conf")).read())

def known_file(prop, tmp):
    """Known findings of this property as <key>\t<what> lines for the harness."""
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = os.path.join(tmp, "known")
    with open(out, "w") as o:
        if os.path.exists(path):
            for line in open(path):
                line = line.strip()
                if not line:
                    continue
                j = json.loads(line)
                if j.get("property") == prop and j.get("status") == "known":
                    o.write(j["key"] + "\t" + j["what"].replace("\n", " ") + "\n")
    return out

def main():
    a = sys.argv[1:]
    if not a or a[0] not in CHECKS:
        print("unknown property; have: " + " ".join(sorted(CHECKS))); return 3
    prop = a[0]; rest = a[1:]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = os.environ.get("VERIF_SEED", "1")
    extra = []
    i = 0
    while i < len(rest):
        if rest[i] == "--tier": tier = rest[i + 1]; i += 2
        elif rest[i] == "--seed": seed = rest[i + 1]; i += 2
        elif rest[i] == "--replay": extra += ["--replay", os.path.abspath(rest[i + 1])]; i += 2
        else: extra.append(rest[i]); i += 1
    c = CHECKS[prop]
    t0 = time.time()
    name = prop.lower()
    built = build.build(c["variant"], [(name, c["src"])] if c.get("src") else [], c.get("plugins", []), c.get("pylm", False), c.get("pymods", ()))
    for v in c.get("also", []):
        build.build(v, [(name, c["src"])], c.get("plugins", []))
    print("build: %.1fs" % (time.time() - t0)); sys.stdout.flush()
    with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
        env = dict(os.environ)
        env["TMPDIR"] = tmp
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=6:" + c.get("asan_options", "")
        env["UBSAN_OPTIONS"] = "halt_on_error=1"
        env["OMP_WAIT_POLICY"] = "passive"
        env["VERIF_LIB_DIR"] = os.path.dirname(built["lib"])
        env["VERIF_REPO"] = build.REPO
        env["LC_ALL"] = "C"
        if c.get("cmd"):
            cmd = [x.format(verif=VERIF, libdir=os.path.dirname(built["lib"]), **built) for x in c["cmd"]]
        else:
            cmd = [built[name]]
        cmd += ["--tier", tier, "--seed", seed, "--out", VERIF, "--known", known_file(prop, tmp)] + extra
        r = subprocess.run(cmd, env=env, cwd=tmp)
    return r.returncode

if __name__ == "__main__":
    sys.exit(main())
