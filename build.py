#!/usr/bin/env python3
"""Builds the code under test (always from /repo's current working tree) and the harnesses.

Every compile goes through ccache with a private, content-addressed cache, so nothing depends on file
times: an unchanged file costs a few milliseconds, a changed file (or header) is recompiled.
"""
import fcntl, glob, os, subprocess, sys, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
CXX = "g++"
DEFS = ["-DFMT_HEADER_ONLY=1", "-DGLM_FORCE_INTRINSICS", "-DLM_USE_CONFIG_RELEASE",
        "-D_SILENCE_ALL_CXX17_DEPRECATION_WARNINGS"]
VARIANTS = {
    # name: (compile flags, link flags)
    "rel": (["-O1", "-DNDEBUG"], []),
    "asan": (["-O1", "-g1", "-DNDEBUG", "-fsanitize=address", "-fno-omit-frame-pointer"], ["-fsanitize=address"]),
    "tsan": (["-O1", "-g1", "-DNDEBUG", "-fsanitize=thread"], ["-fsanitize=thread"]),
}

def env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e["CCACHE_MAXSIZE"] = "4G"
    e["CCACHE_NOHASHDIR"] = "1"
    e.pop("CCACHE_DISABLE", None)
    return e

def run(cmd):
    r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write("BUILD FAILED: " + " ".join(cmd) + "\n" + r.stdout[-6000:] + "\n")
        raise SystemExit(2)

def gen_headers():
    d = os.path.join(BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    src = open(os.path.join(REPO, "src/versiondef.h.in")).read()
    for k, v in [("@PROJECT_VERSION_MAJOR@", "3"), ("@PROJECT_VERSION_MINOR@", "0"), ("@PROJECT_VERSION_PATCH@", "0"),
                 ("@LM_VERSION_REVISION@", "verif"), ("@LM_BUILD_TIMESTAMP@", "0")]:
        src = src.replace(k, v)
    p = os.path.join(d, "versiondef.h")
    if not os.path.exists(p) or open(p).read() != src:
        open(p, "w").write(src)
    return d

def lib_sources():
    fs = sorted(glob.glob(os.path.join(REPO, "src/*.cpp")) + glob.glob(os.path.join(REPO, "src/*/*.cpp")))
    return [f for f in fs if os.path.basename(f) not in ("pylm.cpp", "serial.cpp")]

def cc():
    return ["ccache", CXX] if shutil.which("ccache") else [CXX]

def common_flags(gen):
    return DEFS + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "pch"), "-I" + gen,
                   "-std=gnu++17", "-fPIC", "-fopenmp", "-w"]

def build(variant, harness=(), plugins=(), pylm=False, pymods=()):
    """Returns dict with the paths of what was built."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(variant, harness, plugins, pylm, pymods)

def _build(variant, harness, plugins, pylm, pymods):
    gen = gen_headers()
    cf, lf = VARIANTS[variant]
    out = os.path.join(BUILD, variant)
    jobs = []   # (cmd)
    libobjs = []
    def obj(src, sub):
        rel = os.path.relpath(src, REPO if src.startswith(REPO + "/") else VERIF).replace("/", "_")
        o = os.path.join(out, sub, rel + ".o")
        os.makedirs(os.path.dirname(o), exist_ok=True)
        return o
    base = common_flags(gen)
    hs = []
    for h in harness:   # (name, [sources])
        name, srcs = h
        objs = []
        for s in srcs:
            s = s if os.path.isabs(s) else os.path.join(VERIF, "harness", s)
            o = obj(s, "hobj"); objs.append(o)
            jobs.append(cc() + base + cf + ["-I" + os.path.join(VERIF, "harness"), "-c", s, "-o", o])
        hs.append((name, objs))
    for s in lib_sources():
        o = obj(s, "obj"); libobjs.append(o)
        jobs.append(cc() + base + cf + ["-DLM_EXPORTS", "-c", s, "-o", o])
    plug = []
    for p in plugins:
        s = os.path.join(REPO, "plugin", p, p + ".cpp") if not os.path.isabs(p) else p
        o = obj(s, "pobj"); plug.append((os.path.splitext(os.path.basename(s))[0], o))
        jobs.append(cc() + base + cf + ["-I/opt/vp/external/tinyobjloader", "-c", s, "-o", o])
    pyobj = None
    if pylm:
        import sysconfig
        s = os.path.join(REPO, "src/pylm.cpp"); pyobj = obj(s, "pobj")
        jobs.append(cc() + base + cf + PYFLAGS() + ["-c", s, "-o", pyobj])
    pymod = []
    for m in pymods:
        s = os.path.join(VERIF, "harness", m); o = obj(s, "hobj"); pymod.append((os.path.splitext(m)[0], o))
        jobs.insert(0, cc() + base + cf + PYFLAGS() + ["-c", s, "-o", o])
    # biggest first is not known; harness sources come first because they are the slowest
    with ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        for f in [ex.submit(run, j) for j in jobs]:
            f.result()
    # Drop objects of deleted sources
    res = {}
    lib = os.path.join(out, "lib"); os.makedirs(lib, exist_ok=True)
    so = os.path.join(lib, "liblm.so")
    link([CXX, "-shared", "-fPIC", "-Wl,-soname,liblm.so"] + libobjs + lf + ["-fopenmp", "-lstdc++fs", "-latomic", "-lpthread"], so, libobjs)
    res["lib"] = so
    for name, o in plug:
        p = os.path.join(lib, name + ".so")
        link([CXX, "-shared", "-fPIC", o] + lf + ["-L" + lib, "-llm", "-Wl,-rpath," + lib, "-fopenmp"], p, [o, so])
        res["plugin_" + name] = p
    for name, objs in hs:
        b = os.path.join(out, name)
        link([CXX] + objs + lf + ["-L" + lib, "-llm", "-Wl,-rpath," + lib, "-fopenmp", "-lstdc++fs", "-latomic", "-lpthread", "-ldl"], b, objs + [so])
        res[name] = b
    if pylm:
        import subprocess as sp
        suffix = sp.run(["/opt/vp/venv/bin/python", "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"], capture_output=True, text=True).stdout.strip()
        p = os.path.join(lib, "pylm" + suffix)
        link([CXX, "-shared", "-fPIC", pyobj] + lf + ["-L" + lib, "-llm", "-Wl,-rpath," + lib, "-fopenmp"], p, [pyobj, so])
        res["pylm"] = p
        for name, o in pymod:
            p = os.path.join(lib, name + suffix)
            link([CXX, "-shared", "-fPIC", o] + lf + ["-L" + lib, "-llm", "-Wl,-rpath," + lib, "-fopenmp"], p, [o, so])
            res["pymod_" + name] = p
    return res

def PYFLAGS():
    r = subprocess.run(["/opt/vp/venv/bin/python", "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"], capture_output=True, text=True)
    return ["-I" + r.stdout.strip()]

def digest(paths, cmd):
    h = hashlib.sha256(repr(cmd).encode())
    for p in paths:
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()

def link(cmd, out, inputs):
    d = digest(inputs, cmd)
    stamp = out + ".stamp"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == d:
        return
    tmp = out + ".tmp"
    run(cmd + ["-o", tmp])
    os.replace(tmp, out)
    open(stamp, "w").write(d)
