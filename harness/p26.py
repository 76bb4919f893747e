"""P26: values cross the Python boundary unchanged; components written in Python behave as native ones.
Property-based test (hypothesis). Cases are plain descriptions (picklable) generated by strategies; `check(case)` builds the
Python objects from the description, runs them through the bindings and compares with an own model of the conversion."""
import argparse, base64, collections, gc, json, math, multiprocessing as mp, os, pickle, random, signal, struct, sys, time, traceback, weakref
sys.dont_write_bytecode = True
ap = argparse.ArgumentParser()
for o in ("tier", "out", "known", "replay", "lib"): ap.add_argument("--" + o)
ap.add_argument("--seed", type=int); ap.add_argument("--workers", type=int, default=8); ap.add_argument("--seconds", type=float)
ARGS = ap.parse_args()
sys.path.insert(0, ARGS.lib)
import numpy as np
import hypothesis
from hypothesis import strategies as st, given, settings, HealthCheck, Phase
import pylm as lm, vpy
lm.init(); lm.log.set_severity(100000)

class Fail(AssertionError):
    def __init__(self, key, msg): super().__init__(msg); self.key = key; self.msg = msg
LABELS = collections.Counter(); CHECKS = 0
def ok(cond, key, msg):
    global CHECKS
    CHECKS += 1
    if not cond: raise Fail(key, msg() if callable(msg) else msg)
def label(x): LABELS[x] += 1
PyErr = (TypeError, ValueError, RuntimeError, OverflowError, UnicodeError, lm.Exception)

def bits(x): return struct.pack("<d", float(x))
def same(a, b): return bits(a) == bits(b) or (a != a and b != b)
def same_list(a, b): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))

# --- arrays ---------------------------------------------------------------------------------------
DT = {"d": np.float64, "f": np.float32, "i": np.int32, "l": np.int64, ">d": ">f8", "h": np.float16, "?": np.bool_, "c": np.complex128}
num = st.one_of(st.floats(width=16, allow_nan=False, allow_infinity=False), st.floats(-1e3, 1e3), st.floats(allow_nan=False, allow_infinity=False), st.integers(-1000, 1000).map(float), st.sampled_from([0.0, -0.0, 1.0, math.inf, -math.inf, 1e-308]))
small = st.one_of(st.integers(-8, 8).map(float), st.floats(-10, 10))
LAY1 = ["c", "c", "step2", "rev", "column", "bcast", "readonly", "unaligned", "field", "list", "tuple", "sub"]
LAY2 = ["c", "c", "f", "t", "step", "neg", "bcast", "readonly", "sub", "swap", "list"]

class Sub(np.ndarray): pass
def build1(spec):
    dt, vals, lay = spec
    if lay == "list": return list(vals)
    if lay == "tuple": return tuple(vals)
    with np.errstate(all="ignore"): a = np.array(vals, dtype=np.float64).astype(DT[dt])
    n = len(a)
    if lay == "step2": b = np.full(2 * n + 1, 77, dtype=a.dtype); b[0:2 * n:2] = a; return b[0:2 * n:2]
    if lay == "rev": return a[::-1].copy()[::-1]
    if lay == "column": b = np.full((n, 3), 55, dtype=a.dtype); b[:, 1] = a; return b[:, 1]
    if lay == "bcast": return np.broadcast_to(a[:1], (n,)) if n else a
    if lay == "readonly": a.setflags(write=False); return a
    if lay == "unaligned": raw = np.frombuffer(bytearray(b"\x01" + a.tobytes() + b"\x02" * 8), dtype=np.uint8)[1:1 + a.nbytes]; return raw.view(a.dtype) if n else a
    if lay == "field": s = np.zeros(n, dtype=[("x", "u1"), ("y", a.dtype)]); s["y"] = a; return s["y"]
    if lay == "sub": return a.view(Sub)
    return a
def build2(spec):
    dt, shape, vals, lay = spec
    if lay == "list": return np.array(vals, dtype=np.float64).reshape(shape).tolist()
    with np.errstate(all="ignore"): a = np.array(vals, dtype=np.float64).astype(DT[dt]).reshape(shape)
    if a.ndim != 2: return a
    if lay == "f": return np.asfortranarray(a)
    if lay == "t": return np.ascontiguousarray(a.T).T
    if lay == "step": b = np.full((2 * shape[0] + 1, 3 * shape[1] + 1), 33, dtype=a.dtype); b[0:2 * shape[0]:2, 1:3 * shape[1] + 1:3] = a; return b[0:2 * shape[0]:2, 1:3 * shape[1] + 1:3]
    if lay == "neg": return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    if lay == "bcast": return np.broadcast_to(a[:1], shape)
    if lay == "readonly": a.setflags(write=False); return a
    if lay == "sub": return a.view(Sub)
    if lay == "swap": return np.ascontiguousarray(a.swapaxes(0, 1)).swapaxes(0, 1)
    return a
def values(x): return [complex(v) if np.iscomplexobj(v) else float(v) for v in np.asarray(x).reshape(-1)]

@st.composite
def arr1(draw, n=3, dt="d", any_shape=True):
    k = n if not any_shape or draw(st.integers(0, 5)) else draw(st.integers(0, 6))
    d = dt if draw(st.integers(0, 4)) else draw(st.sampled_from(sorted(DT)))
    return (d, tuple(draw(st.lists(num, min_size=k, max_size=k))), draw(st.sampled_from(LAY1)))
def well1(spec, n, dt): return spec[2] not in ("list", "tuple") and spec[0] == dt and len(spec[1]) == n
def expect1(call, spec, n, dt, key, what):
    """call(array) -> list of the values that arrived"""
    a = build1(spec); label("vec-" + (spec[2] if spec[0] == dt else "dtype-" + spec[0]))
    try: got = call(a)
    except PyErr as e:
        ok(not well1(spec, n, dt), key + "-refused", lambda: "%s: array %r (strides %s) refused: %s" % (what, a, getattr(a, "strides", ()), str(e)[:80])); label("refused"); return None
    want = values(a)
    ok(len(want) == n and np.asarray(a).ndim == 1, key + "-shape", lambda: "%s: array of shape %s accepted as %d values %s" % (what, np.asarray(a).shape, n, got))
    ok(same_list(got, [float(np.float32(x)) if dt == "f" else x for x in want]), key + "-values", lambda: "%s: array %r (dtype %s, strides %s) arrived as %s" % (what, a, getattr(a, "dtype", None), getattr(a, "strides", ()), got))
    return want

# --- values (json) --------------------------------------------------------------------------------
ints = st.one_of(st.integers(-100, 100), st.sampled_from([2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32, 2**53 + 1, 2**63 - 1, 2**63, -2**63, 2**64 - 1, 2**64, -2**63 - 1, 10**30]), st.integers(-2**64, 2**65))
leaf = st.one_of(st.none(), st.booleans(), ints, st.floats(), st.text(max_size=8), st.tuples(st.just("\0np"), st.sampled_from(["float64", "float32", "int64", "int8", "bool_", "uint64"]), st.integers(0, 100)),
                 st.tuples(st.just("\0arr"), st.sampled_from(["d", "f", "l"]), st.lists(small, max_size=3).map(tuple)), st.tuples(st.just("\0comp"), st.integers(0, 2)), st.tuples(st.just("\0odd"), st.integers(0, 11)), st.tuples(st.just("\0keys"), st.lists(st.integers(0, 5), min_size=1, max_size=3)))
clean = st.one_of(st.none(), st.booleans(), st.integers(-2**31, 2**31 - 1), st.floats(), st.text(max_size=8), st.tuples(st.just("\0comp"), st.integers(0, 2)))
def nest(l): return st.recursive(l, lambda c: st.one_of(st.lists(c, max_size=4), st.tuples(st.just("\0tup"), st.lists(c, max_size=4)), st.dictionaries(st.text(max_size=5), c, max_size=4)), max_leaves=12)
tree = st.one_of(nest(clean), nest(leaf))
UNSURE, ERR = object(), object()

class Opaque: pass
def odd(k):
    return [lambda: object(), lambda: {1, 2}, lambda: lm.Ray(), lambda: lm.log.LogLevel.Info, lambda: (lambda: 0), lambda: Opaque(), lambda: lm.PointGeometry(), lambda: 1j, lambda: iter([1]), lambda: lm.Rng(1), lambda: type, lambda: lm.SceneNodeType.Group][k]()
def comp(k):
    p = lm.get("$.assets." + ["t0", "f0", "py0"][k])     # loading again would replace the component an earlier element refers to
    if p is not None: return p
    if k == 0: return lm.load_texture("t0", "constant", {"color": [1, 2, 3]})
    if k == 1: return lm.load_film("f0", "bitmap", {"w": 2, "h": 2})
    return lm.load("py0", "texture::p26", {})
def make(v):
    """Python object described by v, and the plain value that should arrive (UNSURE: the value or an error; ERR: an error)"""
    if isinstance(v, tuple):
        t = v[0]
        if t == "\0np": x = getattr(np, v[1])(v[2]); return x, (float(x) if v[1] == "float64" else (UNSURE, x.item()))
        if t == "\0arr": a = np.array(v[2], dtype=DT[v[1]]); return a, ([float(x) for x in a] if v[1] == "d" else (UNSURE, [x.item() for x in a]))
        if t == "\0comp": c = comp(v[1]); return c, c.loc()
        if t == "\0odd": return odd(v[1]), ERR
        if t == "\0keys": # keys of other types are refused, not dropped
            d = {}
            for i in v[1]: d[["a", 1, 2.5, None, (1, 2), Opaque][i]] = i
            return d, ({"a": 0} if set(v[1]) == {0} else ERR)
        xs = [make(x) for x in v[1]]; return tuple(x[0] for x in xs), [x[1] for x in xs]
    if isinstance(v, list): xs = [make(x) for x in v]; return [x[0] for x in xs], [x[1] for x in xs]
    if isinstance(v, dict): xs = {k: make(x) for k, x in v.items()}; return {k: x[0] for k, x in xs.items()}, {k: x[1] for k, x in xs.items()}
    if isinstance(v, int) and not isinstance(v, bool):
        if -2**31 <= v < 2**31: return v, v
        return v, (UNSURE, v)
    return v, v
def has(w, what):
    if w is what: return True
    if isinstance(w, tuple): return what is UNSURE or has(w[1], what)
    if isinstance(w, list): return any(has(x, what) for x in w)
    if isinstance(w, dict): return any(has(x, what) for x in w.values())
    return False
def equal(got, want):
    if isinstance(want, tuple): want = want[1]; return equal(got, want) or (isinstance(got, (int, float)) and isinstance(want, (int, float, bool)) and got == want) or (isinstance(got, list) and isinstance(want, list) and got == want)
    if isinstance(want, bool) or want is None: return got is want
    if isinstance(want, int): return type(got) is int and got == want
    if isinstance(want, float): return type(got) is float and same(got, want)
    if isinstance(want, str): return type(got) is str and got == want
    if isinstance(want, list): return type(got) is list and len(got) == len(want) and all(equal(g, w) for g, w in zip(got, want))
    if isinstance(want, dict): return type(got) is dict and got.keys() == want.keys() and all(equal(got[k], want[k]) for k in want)
    return False
def finite(w):
    if isinstance(w, float): return math.isfinite(w)
    if isinstance(w, tuple): return finite(w[1])
    if isinstance(w, list): return all(map(finite, w))
    if isinstance(w, dict): return all(map(finite, w.values()))
    return True

class PyTex(lm.Texture):
    def __init__(self): super().__init__(); self.prop = None
    def construct(self, prop): self.prop = prop
    def eval(self, t): return np.array([t[0], t[1], .5])
lm.Texture.reg(PyTex, "texture::p26")

def c_json(case):
    v, route = case; lm.reset(); obj, want = make(v); bad = has(want, ERR); unsure = has(want, UNSURE)
    label("json-bad" if bad else "json-unsure" if unsure else "json")
    if isinstance(v, dict) and route in (1, 2) and not bad:
        # parameters of a component written in Python
        kw = not {"name", "impl_key", "prop", "self"} & set(obj); sel = sum(map(len, obj)) % 3 if route == 2 else 0; grp = lm.load_asset_group("g", "default", {}) if sel else None
        try: p = lm.load("x", "texture::p26", obj) if route == 1 else grp.load_texture("x", "p26", **obj) if sel == 1 and kw else grp.load_texture("x", "p26", obj) if sel else lm.load_texture("x", "p26", **obj) if not {"name", "impl_key", "prop", "self"} & set(obj) else lm.load("x", "texture::p26", obj)
        except PyErr as e: ok(unsure, "params-refused", "parameters %r refused: %s" % (obj, str(e)[:100])); return
        ok(equal(p.prop, want), "params", lambda: "parameters %r arrive as %r" % (obj, p.prop)); label("params"); return
    try: got = vpy.json_echo(obj)
    except PyErr as e: ok(bad or unsure, "json-refused", lambda: "%r refused: %s" % (obj, str(e)[:100])); return
    ok(not bad, "json-accepted", lambda: "%r accepted as %r" % (obj, got))
    ok(equal(got, want), "json-echo", lambda: "%r comes back as %r" % (obj, got))
    if finite(want): t = json.loads(vpy.json_dump(obj).decode()); ok(equal(t, want), "json-value", lambda: "%r arrives as %s" % (obj, t))
    if isinstance(v, float): ok(vpy.json_bits(obj) == bits(v) or v != v, "json-bits", "float %r changed" % v)
    if isinstance(v, str): ok(vpy.json_str(obj) == v.encode(), "json-str", "text %r changed" % v)
native = nest(st.one_of(st.none(), st.booleans(), st.integers(-2**63, 2**64 - 1), ints.filter(lambda x: -2**63 <= x < 2**64), st.floats(allow_nan=False, allow_infinity=False), st.text(max_size=8))).filter(lambda v: "\0" not in repr(v))
def detup(v):
    if isinstance(v, tuple): return detup(v[1])
    if isinstance(v, list): return [detup(x) for x in v]
    if isinstance(v, dict): return {k: detup(x) for k, x in v.items()}
    return v
def c_native(case):
    v = detup(case); label("json-from-native"); got = None
    try: got = vpy.json_parse(json.dumps(v))
    except PyErr as e: ok(False, "native-refused", "value %r of the engine cannot be read: %s" % (v, str(e)[:100]))
    ok(equal(got, v), "native-value", lambda: "value %r of the engine arrives in Python as %r" % (v, got))

# --- vectors and matrices ---------------------------------------------------------------------------
VEC = [("v2d", 2, "d"), ("v3d", 3, "d"), ("v4d", 4, "d"), ("v2f", 2, "f"), ("v3f", 3, "f"), ("v4f", 4, "f")]
vec_case = st.sampled_from(VEC).flatmap(lambda t: st.tuples(st.just(t), arr1(t[1], t[2])))
def c_vec(case):
    (n, N, dt), spec = case
    with np.errstate(all="ignore"):
        w = expect1(getattr(vpy, n + "_list"), spec, N, dt, "vec", n)
        if w is None: return
        a = build1(spec); r = getattr(vpy, n + "_echo")(a); r2 = getattr(vpy, n + "_make")([float(x) for x in np.asarray(a).reshape(-1)])
    for x in (r, r2):
        ok(isinstance(x, np.ndarray) and x.shape == (N,) and x.dtype == DT[dt], "vec-result", lambda: "%s returns %r" % (n, x))
        ok(same_list([float(q) for q in x], [float(q) for q in a]), "vec-result-values", lambda: "%s of %r returns %r" % (n, a, x))
    before = r2.copy(); r[:] = 123; gc.collect(); junk = [getattr(vpy, n + "_make")([9.] * N) for _ in range(20)]
    ok(same_list(list(map(float, r2)), list(map(float, before))), "vec-alias", "a returned vector changed"); ok(same_list([float(q) for q in np.asarray(build1(spec))], [float(q) for q in np.asarray(a)]), "vec-source", "the argument changed"); del junk
MAT = [("m3d", 3, "d"), ("m4d", 4, "d"), ("m3f", 3, "f"), ("m4f", 4, "f")]
@st.composite
def mat_case(draw):
    t = draw(st.sampled_from(MAT)); N = t[1]
    shape = (N, N) if draw(st.integers(0, 6)) else draw(st.sampled_from([(3, 3), (4, 4), (4, 3), (3, 4), (2, 8), (8, 2), (16,), (9,), (4, 4, 1), (5, 5), (0, 4), (1, 1)]))
    k = int(np.prod(shape)); return (t, (t[2] if draw(st.integers(0, 5)) else draw(st.sampled_from(sorted(DT))), shape, tuple(draw(st.lists(small, min_size=k, max_size=k, unique=draw(st.booleans()) and k <= 16))), draw(st.sampled_from(LAY2))))
def c_mat(case):
    (n, N, dt), spec = case; a = build2(spec); well = spec[0] == dt and spec[1] == (N, N) and spec[3] != "list"
    label("mat-" + (spec[3] if spec[0] == dt else "dtype"))
    try: got = getattr(vpy, n + "_list")(a)
    except PyErr as e: ok(not well, "mat-refused", lambda: "%s: matrix %r (strides %s) refused: %s" % (n, a, a.strides, str(e)[:80])); return
    ok(np.asarray(a).shape == (N, N), "mat-shape", lambda: "%s: array of shape %s accepted as %s" % (n, np.asarray(a).shape, got))
    want = [float(np.float32(x)) if dt == "f" else x for x in values(a)]
    ok(same_list(got, want), "mat-values", lambda: "%s: matrix %r (strides %s) arrived as %s" % (n, a, getattr(a, "strides", ()), got))
    for x in (getattr(vpy, n + "_echo")(a), getattr(vpy, n + "_make")(want)):
        ok(x.shape == (N, N) and x.dtype == DT[dt], "mat-result", lambda: "%s returns shape %s dtype %s" % (n, x.shape, x.dtype)); ok(same_list([float(q) for q in x.reshape(-1)], want), "mat-result-values", lambda: "%s of %r returns %r" % (n, want, x))

# --- structures --------------------------------------------------------------------------------------
GEO = [("p", 3), ("n", 3), ("gn", 3), ("wo", 3), ("t", 2), ("u", 3), ("v", 3)]
geo = st.tuples(st.lists(small, min_size=20, max_size=20), st.booleans(), st.booleans()).map(lambda t: tuple(t[0]) + (float(t[1]), float(t[2])))
def geo_list(g): return [float(x) for n, k in GEO for x in getattr(g, n)] + [float(g.degenerated), float(g.infinite)]
def c_struct(case):
    g, sets, r = case; o = vpy.geom_make(list(g)); label("struct")
    for n, v in vpy.enums().items():
        e = lm
        for x in n.split("."): e = getattr(e, x)
        ok(int(e) == v, "enum", lambda: "lm.%s is %d, natively %d" % (n, int(e), v))
    for n, v in vpy.constants().items(): ok(same(getattr(lm, n), v), "constant", lambda: "lm.%s is %r, natively %r" % (n, getattr(lm, n), v))
    ok(same_list(geo_list(o), list(g)), "geom-read", lambda: "attributes of a point %s read %s" % (g, geo_list(o)))
    cur = list(g)
    for k, spec in sets:
        n, N = GEO[k]; off = sum(x[1] for x in GEO[:k])
        def put(a):
            setattr(o, n, a); return vpy.geom_list(o)[off:off + N]
        w = expect1(put, spec, N, "d", "attr", "PointGeometry." + n)
        if w is not None: cur[off:off + N] = w
        ok(same_list(vpy.geom_list(o), cur), "attr-other", lambda: "setting %s changed other attributes: %s expected %s" % (n, vpy.geom_list(o), cur))
    ray = lm.Ray() if r[0] else lm.Ray(np.array(r[1][:3]), np.array(r[1][3:]))
    ray.o = np.array(r[1][:3]); ray.d = np.array(r[1][3:])
    ok(same_list(vpy.ray_list(ray), list(r[1])) and same_list(list(map(float, ray.o)) + list(map(float, ray.d)), list(r[1])), "ray", "ray %s is %s" % (r[1], vpy.ray_list(ray)))
    gs = lm.PointGeometry.make_on_surface(np.array(r[1][:3]), np.array([0., 0., 1.]), np.array([0., 1., 0.]), np.array(r[1][3:5]))
    ok(list(gs.p) == r[1][:3] and list(gs.n) == [0, 0, 1] and list(gs.gn) == [0, 1, 0] and list(gs.t) == r[1][3:5] and not gs.infinite and not gs.degenerated, "make-on-surface", "point made on a surface")
    gi = lm.PointGeometry.make_infinite(np.array(r[1][:3])); ok(gi.infinite and list(gi.wo) == r[1][:3], "make-infinite", "point at infinity"); gd = lm.PointGeometry.make_degenerated(np.array(r[1][:3])); ok(gd.degenerated and list(gd.p) == r[1][:3], "make-degenerated", "degenerate point")
    # functions of points, points drawn before as second argument
    f = [min(1e6, max(-1e6, x)) for x in g]; h = f[3:6] + f[0:3] + f[6:]; a = [min(1e6, max(-1e6, x)) for x in r[1]]; G = vpy.geom_make(f); H = vpy.geom_make(h)
    A = np.array(a[:3]); B = np.array(a[3:]); ok(G.opposite(A, B) == vpy.geom_opposite(f, a[:3], a[3:]), "opposite", lambda: "opposite(%r, %r) of %r" % (A, B, f))
    ok(same_list([float(x) for w in G.orthonormal_basis_twosided(A) for x in w], vpy.geom_basis(f, a[:3])), "basis-twosided", lambda: "basis of %r for %r" % (f, A))
    x = lm.surface.geometry_term(G, H); y = vpy.geometry_term(f, h); ok(same(x, y), "geometry-term", lambda: "geometry term of %r and %r is %r, native %r" % (f, h, x, y))
struct_case = st.tuples(geo, st.lists(st.integers(0, 6).flatmap(lambda k: st.tuples(st.just(k), arr1(GEO[k][1]))), max_size=4), st.tuples(st.booleans(), st.lists(small, min_size=6, max_size=6)))

film_case = st.tuples(st.integers(1, 6), st.integers(1, 6)).flatmap(lambda s: st.tuples(st.just(s), st.lists(small, min_size=3 * s[0] * s[1], max_size=3 * s[0] * s[1]), st.lists(st.tuples(st.integers(0, s[0] - 1), st.integers(0, s[1] - 1), arr1(3)), max_size=4)))
def c_film(case):
    (w, h), vals, ops = case; lm.reset(); f = lm.load_film("film", "bitmap", {"w": w, "h": h}); label("film")
    vpy.film_fill(f, vals); a = np.array(f.buffer()); ref = np.array(vals).reshape(h, w, 3)
    ok(a.shape == (h, w, 3) and a.dtype == np.float64 and np.array_equal(a, ref), "film-buffer", lambda: "film %dx%d with pixels %s shows %s" % (w, h, vals, a.tolist()))
    s = f.size(); ok((s.w, s.h) == (w, h) and f.num_pixels() == w * h and same(f.aspect(), w / h), "film-size", "size of a %dx%d film" % (w, h))
    for x, y, spec in ops:
        def put(v): f.set_pixel(x, y, v); return vpy.film_list(f)[3 * (y * w + x):3 * (y * w + x) + 3]
        got = expect1(put, spec, 3, "d", "set-pixel", "set_pixel")
        if got is not None: ref[y, x] = got
    ok(same_list(list(map(float, np.array(f.buffer()).reshape(-1))), list(map(float, ref.reshape(-1)))), "film-pixels", "other pixels changed")
    b = np.array(f.buffer()); keep = b.copy(); lm.reset(); gc.collect(); ok(np.array_equal(b, keep, equal_nan=True), "film-copy", "copied pixels changed")

# --- functions of the module --------------------------------------------------------------------------
def rot(a, k):
    k = np.array(k) / np.linalg.norm(k); K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]]); m = np.eye(4); m[:3, :3] = np.eye(3) + math.sin(a) * K + (1 - math.cos(a)) * K @ K; return m
def c_math(case):
    a, k, v, lay = case; label("math"); V = build1(("d", tuple(v), lay)); K = build1(("d", tuple(k), lay)); V = np.asarray(V); K = np.asarray(K)
    if np.linalg.norm(K) > 1e-3: ok(np.allclose(lm.rotate(a, K), rot(a, K), atol=1e-9), "rotate", lambda: "rotate(%r, %r) = %r" % (a, K, lm.rotate(a, K)))
    t = np.eye(4); t[:3, 3] = V; ok(np.array_equal(lm.translate(V), t), "translate", lambda: "translate(%r) = %r" % (V, lm.translate(V))); ok(np.array_equal(lm.scale(V), np.diag(list(V) + [1])), "scale", lambda: "scale(%r) = %r" % (V, lm.scale(V)))
    ok(np.array_equal(lm.identity(), np.eye(4)) and same(lm.rad(a), math.radians(a)) or abs(lm.rad(a) - math.radians(a)) < 1e-12 * (1 + abs(a)), "rad", "rad"); ok(same_list(list(map(float, lm.v3(*v))), list(v)), "v3", "v3%r = %r" % (tuple(v), lm.v3(*v)))
    n = np.array(v) ; l = np.linalg.norm(n)
    if l > 1e-3:
        n = n / l; u, w = lm.math.orthonormal_basis(n); ok(abs(u @ w) < 1e-9 and abs(u @ n) < 1e-9 and abs(w @ n) < 1e-9 and np.allclose(np.cross(u, w), n, atol=1e-9), "basis", "orthonormal_basis(%r)" % n)
        d = np.array(k); r = lm.math.reflection(d, n); ok(np.allclose(r, 2 * (d @ n) * n - d, atol=1e-9), "reflection", "reflection(%r, %r) = %r" % (d, n, r))
    if l > 1e-3 and np.linalg.norm(K) > 1e-3:
        wi = np.array(K) / np.linalg.norm(K); e = 1 / (1 + abs(a)) if a < 0 else 1 + min(a, 5); r = lm.math.refraction(wi, n, e); w = vpy.refraction([float(x) for x in wi], [float(x) for x in n], e); ok(r.total == w[0] and (r.total or same_list([float(x) for x in r.wt], w[1])), "refraction", lambda: "refraction(%r, %r, %r) = %r, native %r" % (wi, n, e, (r.total, r.wt), w))
    uu = [abs(math.sin(x)) * .999 for x in k[:2]]; ok(same_list([float(x) for x in lm.math.sample_cosine_weighted(np.array(uu))], vpy.sample_cosine_weighted(uu)), "sample-cosine", "sample_cosine_weighted(%r)" % uu)
    sd = int(min(1e6, abs(a) * 1000)); q = lm.Rng(sd); ok([q.u() for _ in range(5)] == vpy.rng(sd, 5), "rng", "random numbers of seed %d" % sd)
    ok(same(lm.math.sq(a), a * a) and same(lm.math.safe_sqrt(a), math.sqrt(max(0, a))), "sq", "sq / safe_sqrt")
    if a >= 0 and abs(k[0]) + a > 0: ok(abs(lm.math.balance_heuristic(a, abs(k[0])) - a / (a + abs(k[0]))) < 1e-12, "balance", "balance_heuristic")
math_case = st.tuples(small, st.lists(small, min_size=3, max_size=3), st.lists(small, min_size=3, max_size=3), st.sampled_from(["c", "step2", "rev", "column", "readonly", "unaligned", "field"]))

# --- components written in Python: every overridable function ---------------------------------------------
v3s = st.lists(small, min_size=3, max_size=3); v2s = st.lists(small, min_size=2, max_size=2); ray_s = st.lists(small, min_size=6, max_size=6); m4s = st.lists(small, min_size=16, max_size=16)
KIND = {"v2": v2s, "v3": v3s, "f": small, "i": st.integers(-10**6, 10**6), "b": st.booleans(), "g": geo, "r": ray_s, "m": m4s, "s": st.text(alphabet=st.characters(blacklist_characters="\0", blacklist_categories=("Cs",)), max_size=8), "j": native.filter(lambda v: True), "I": st.integers(-2**62, 2**62)}
TR = [  # interface, function, arguments, result
    ("Texture", "eval", ["v2"], "v3"), ("Texture", "eval_by_pixel_coords", ["i", "i"], "v3"),
    ("Volume", "has_scalar", [], "b"), ("Volume", "max_scalar", [], "f"), ("Volume", "eval_scalar", ["v3"], "f"), ("Volume", "has_color", [], "b"), ("Volume", "eval_color", ["v3"], "v3"),
    ("Medium", "is_emitter", [], "b"), ("Phase", "pdf_direction", ["g", "v3", "v3"], "f"), ("Phase", "eval", ["g", "v3", "v3"], "v3"),
    ("Camera", "set_aspect_ratio", ["f"], "-"), ("Camera", "view_matrix", [], "m"), ("Camera", "projection_matrix", [], "m"), ("Camera", "primary_ray", ["v2"], "r"), ("Camera", "pdf_ray", ["g", "v3"], "f"),
    ("Camera", "pdf_direction", ["g", "v3"], "f"), ("Camera", "pdf_position", ["g"], "f"), ("Camera", "pdf_direct", ["g", "g", "v3"], "f"), ("Camera", "raster_position", ["v3"], "ov2"), ("Camera", "is_connectable", ["g"], "b"), ("Camera", "eval", ["v3"], "v3"),
    ("Light", "pdf_direction", ["g", "v3"], "f"), ("Light", "is_specular", [], "b"), ("Light", "is_infinite", [], "b"), ("Light", "is_connectable", ["g"], "b"), ("Light", "eval", ["g", "v3", "b"], "v3"),
    ("Material", "is_specular_component", ["i"], "b"), ("Material", "reflectance", ["g"], "v3"), ("Material", "pdf_component", ["i", "g", "v3"], "f"), ("Material", "pdf_direction", ["g", "v3", "v3", "i", "b"], "f"),
    ("Mesh", "num_triangles", [], "i"), ("Film", "num_pixels", [], "I"), ("Film", "set_pixel", ["i", "i", "v3"], "-"), ("Film", "splat_pixel", ["i", "i", "v3"], "-"), ("Film", "save", ["s"], "b"), ("Film", "rescale", ["f"], "-"), ("Film", "clear", [], "-"),
    ("Scene", "create_group_node", ["m"], "i"), ("Scene", "add_child", ["i", "i"], "-"), ("Scene", "add_child_from_model", ["i", "s"], "-"), ("Scene", "create_group_from_model", ["s"], "i"), ("Scene", "set_accel", ["s"], "-"), ("Scene", "create_primitive_node", ["j"], "i"),
    ("Scene", "pdf_light_selection", ["i"], "f"), ("Scene", "light_index_at", ["i"], "i"),
] + [("Scene", n, [], "i") for n in ("root_node", "num_nodes", "num_lights", "camera_node", "medium_node", "env_light_node", "create_instance_group_node")]
@st.composite
def tr_case(draw):
    k = draw(st.integers(0, len(TR) - 1)); t = TR[k]; args = [draw(KIND[a]) for a in t[2]]; r = t[3]
    if r == "v3": ret = draw(arr1(3))
    elif r == "ov2": ret = draw(st.one_of(st.none(), arr1(2)))
    elif r == "m": ret = ("d", (4, 4), tuple(draw(m4s)), draw(st.sampled_from(LAY2)))
    elif r == "-": ret = None
    else: ret = draw(KIND[r])
    return (k, args, ret, draw(st.integers(0, 3)))
def seen(kind, x):
    if kind in ("v2", "v3"): ok(isinstance(x, np.ndarray) and x.shape == (int(kind[1]),) and x.dtype == np.float64, "arg-array", "argument is %r" % (x,)); return [float(q) for q in x]
    if kind == "m": ok(x.shape == (4, 4), "arg-matrix", "argument is %r" % (x,)); return [float(q) for q in x.reshape(-1)]
    if kind == "g": return geo_list(x)
    if kind == "r": return [float(q) for q in x.o] + [float(q) for q in x.d]
    return x
def c_tr(case):
    k, args, ret, how = case; iface, fn, kinds, rk = TR[k]; rec = []; label(iface + "." + fn); args = [detup(a) if kd == "j" else a for kd, a in zip(kinds, args)]
    if rk == "v3": r = build1(ret)
    elif rk == "ov2": r = None if ret is None else build1(ret)
    elif rk == "m": r = build2(ret)
    elif rk == "r": r = lm.Ray(); r.o = np.array(ret[:3]); r.d = np.array(ret[3:])
    else: r = ret
    base = getattr(lm, iface)
    def f(self, *a): rec.append([seen(kd, x) for kd, x in zip(kinds, a)] if len(a) == len(kinds) else a); return r
    cls = type("X" + iface, (base,), {"__init__": lambda self: base.__init__(self), fn: f, "construct": lambda self, prop: None})
    if how == 0:
        lm.reset(); base.reg(cls, "p26::x"); o = lm.load("o", "p26::x", {}); 
    else: o = cls()
    try:
        pre = iface.lower() + "_"; call = getattr(vpy, pre + fn, None)
        a = [json.dumps(x) if kd == "j" else x for kd, x in zip(kinds, args)]
        well = not (rk == "v3" and not well1(ret, 3, "d")) and not (rk == "ov2" and ret is not None and not well1(ret, 2, "d")) and not (rk == "m" and ret[3] == "list")
        try: got = call(o, *a) if call else vpy.scene_int(o, fn)
        except PyErr as e: ok(not well, "override-error", lambda: "%s.%s returning %r raised %s: %s" % (iface, fn, r, type(e).__name__, str(e)[:150])); return
        ok(len(rec) == 1, "override-calls", lambda: "%s.%s was called %d times" % (iface, fn, len(rec)))
        want = [list(x) if kd == "g" else x for kd, x in zip(kinds, args)]
        ok(len(rec[0]) == len(want) and all((same_list(g, w) if isinstance(g, list) and kd != "j" else equal(g, w)) for kd, g, w in zip(kinds, rec[0], want)), "override-args", lambda: "%s.%s received %r, expected %r" % (iface, fn, rec[0], want))
        if rk in ("v3", "m") or (rk == "ov2" and ret is not None):
            n = {"v3": (3,), "m": (4, 4), "ov2": (2,)}[rk]
            ok(np.asarray(r).shape == n and same_list(got, values(r)), "override-result", lambda: "%s.%s returned %r, the engine got %s" % (iface, fn, r, got))
        elif rk == "r": ok(same_list(got, list(ret)), "override-result", lambda: "%s.%s returned %s, the engine got %s" % (iface, fn, ret, got))
        elif rk == "f": ok(same(got, float(ret)), "override-result", lambda: "%s.%s returned %r, the engine got %r" % (iface, fn, ret, got))
        elif rk != "-": ok(type(got) is type(ret) and got == ret, "override-result", lambda: "%s.%s returned %r, the engine got %r" % (iface, fn, ret, got))
    finally:
        if how == 0: del o; lm.reset(); base.unreg("p26::x", "")

# --- delegation: a Python component around a native one is indistinguishable from it ------------------------
def c_delegate(case):
    kind, seed, fs, draws = case; lm.reset(); R = random.Random(seed); label("delegate-" + kind)
    def V(n=3, s=2.): return np.array([R.uniform(-s, s) for _ in range(n)])
    def D(): v = V(); return v / np.linalg.norm(v)
    def tri_mesh(name):
        n = R.randint(1, 6) if R.random() < .9 else R.randint(65, 300); ps = [R.uniform(-2, 2) for _ in range(9 * n)]; return lm.load_mesh(name, "raw", {"ps": ps, "ns": [x for _ in range(n) for x in D()], "ts": [R.random() for _ in range(2 * n)], "fs": {"p": list(range(3 * n)), "n": [i // 3 for i in range(3 * n)], "t": [i // 3 for i in range(3 * n)]}})
    if kind == "mesh":
        m = tri_mesh("m")
        class P(lm.Mesh):
            def __init__(self): lm.Mesh.__init__(self)
            def foreach_triangle(self, f): m.foreach_triangle(f)
            def triangle_at(self, k): return m.triangle_at(k)
            def surface_point(self, k, uv): return m.surface_point(k, uv)
            def num_triangles(self): return m.num_triangles()
        p = P(); n = m.num_triangles(); ok(vpy.mesh_num_triangles(p) == n, "mesh", "number of triangles")
        ok(vpy.mesh_foreach_triangle(p) == vpy.mesh_foreach_triangle(m), "mesh", "triangles of a mesh written in Python")
        for k in range(n):
            uv = [R.random() / 2, R.random() / 2]; ok(vpy.mesh_triangle_at(p, k) == vpy.mesh_triangle_at(m, k) and vpy.mesh_surface_point(p, k, uv) == vpy.mesh_surface_point(m, k, uv), "mesh", "triangle %d of a mesh written in Python" % k)
            t = m.triangle_at(k); ok([float(x) for q in (t.p1, t.p2, t.p3) for a in (q.p, q.n, q.t) for x in a] == vpy.mesh_triangle_at(m, k), "tri-read", "attributes of a triangle")
            s = m.surface_point(k, np.array(uv)); ok([float(x) for a in (s.p, s.n, s.gn, s.t) for x in a] == vpy.mesh_surface_point(m, k, uv), "point-read", "attributes of a surface point")
        return
    if kind == "medium":
        o = V(); ph = lm.load_phase("ph", "isotropic", {}); m = lm.load_medium("m", "homogeneous", {"density": R.uniform(.1, 2), "albedo": [.5, .5, .5], "phase": ph, "bound_min": [-2, -2, -2], "bound_max": [2, 2, 2]})
        us = []
        class P(lm.Medium):
            def __init__(self): lm.Medium.__init__(self)
            def eval_transmittance(self, rng, ray, a, b): [us.append(rng.u()) for _ in range(draws)]; return m.eval_transmittance(rng, ray, a, b)
            def sample_distance(self, rng, ray, a, b): [us.append(rng.u()) for _ in range(draws)]; return m.sample_distance(rng, ray, a, b)
            def is_emitter(self): return m.is_emitter()
            def phase(self): return m.phase()
        p = P(); r = list(V()) + list(D()); a, b = 0., R.uniform(1, 5)
        ok(vpy.medium_phase(p) == vpy.addr(ph) and vpy.medium_phase(m) == vpy.addr(ph), "medium-phase", "phase of a medium")
        if draws == 0:
            ok(vpy.medium_eval_transmittance(p, seed, r, a, b) == vpy.medium_eval_transmittance(m, seed, r, a, b), "medium-transmittance", "transmittance of a medium written in Python, or its use of random numbers, differs from the native one it wraps")
            x, y = vpy.medium_sample_distance(p, seed, r, a, b), vpy.medium_sample_distance(m, seed, r, a, b); ok(x == y, "medium-distance", lambda: "distance sample of a medium written in Python %s, native %s" % (x, y))
        else:
            g = lm.Rng(seed); ref = [g.u() for _ in range(draws)]; vpy.medium_eval_transmittance(p, seed, r, a, b); ok(us == ref, "medium-rng", lambda: "random numbers seen in Python %s, expected %s" % (us, ref))
            _, nxt = vpy.medium_eval_transmittance(p, seed, r, a, b); ok(nxt == g.u(), "medium-rng-state", "random numbers drawn in Python are drawn again by the engine")
        return
    # images: the same scene with native parts and with Python parts
    m = tri_mesh("mesh"); col = [R.random() for _ in range(3)]; cam = dict(position=[0, 0, 6], center=list(map(float, V(3, .5))), up=[0, 1, 0], vfov=R.uniform(20, 70), aspect=1.)
    nc = lm.load_camera("cam", "pinhole", cam); nt = lm.load_texture("tex", "constant", {"color": col}); na = lm.load_accel("acc", "sahbvh", {}); film = lm.load_film("film", "bitmap", {"w": R.randint(1, 6), "h": R.randint(1, 6)})
    class PC(lm.Camera):
        def __init__(self): lm.Camera.__init__(self)
        def construct(self, prop): pass
        def primary_ray(self, rp): return nc.primary_ray(rp)
        def set_aspect_ratio(self, a): nc.set_aspect_ratio(a)
        def view_matrix(self): return nc.view_matrix()
        def projection_matrix(self): return nc.projection_matrix()
    class PT(lm.Texture):
        def __init__(self): lm.Texture.__init__(self)
        def construct(self, prop): pass
        def eval(self, t): return nt.eval(t)
        def size(self): return nt.size()
        def eval_by_pixel_coords(self, x, y): return nt.eval_by_pixel_coords(x, y)
    class PA(lm.Accel):
        def __init__(self): lm.Accel.__init__(self)
        def construct(self, prop): pass
        def build(self, s): na.build(s)
        def intersect(self, r, a, b): return na.intersect(r, a, b)
    class PM(lm.Mesh):
        def __init__(self): lm.Mesh.__init__(self)
        def construct(self, prop): pass
        def foreach_triangle(self, f): m.foreach_triangle(f)
        def triangle_at(self, k): return m.triangle_at(k)
        def surface_point(self, k, uv): return m.surface_point(k, uv)
        def num_triangles(self): return m.num_triangles()
    reg = [(lm.Camera, PC, "camera::p26"), (lm.Texture, PT, "texture::p26t"), (lm.Accel, PA, "accel::p26"), (lm.Mesh, PM, "mesh::p26")]
    for b, c, k in reg: b.reg(c, k)
    try:
        lm.parallel.init("openmp", {"num_threads": fs[0]}); T = lm.rotate(R.uniform(0, 6), D()); T = T if fs[5] == 0 else np.asfortranarray(T)
        def image(use):
            cm = lm.load("pcam", "camera::p26", {}) if use[0] else nc; tx = lm.load("ptex", "texture::p26t", {}) if use[1] else nt; ac = lm.load("pacc", "accel::p26", {}) if use[2] else na; me = lm.load("pmesh", "mesh::p26", {}) if use[3] else m
            mt = lm.load_material("mat", "diffuse", {"mapKd": tx}) if not use[4] else lm.load_material("mat", "diffuse", mapKd=tx.loc()); s = lm.load_scene("scene", "default", {"accel": ac}) if not use[4] else lm.load_scene("scene", "default", accel=ac.loc())
            s.add_primitive({"camera": cm}) if not use[4] else s.add_primitive(camera=cm.loc()); s.add_transformed_primitive(T, {"mesh": me, "material": mt}) if not use[4] else s.add_transformed_primitive(T, mesh=me, material=mt)
            s.build(); r = lm.load_renderer("r", "raycast", {"scene": s, "output": film}); r.render(); return np.array(film.buffer())
        a = image([False] * 5); b = image([bool(x) for x in fs[1:5]] + [bool(fs[6])])
        ok(a.shape == b.shape and np.array_equal(a, b), "image", lambda: "image with components written in Python (camera, texture, accel, mesh)=%s differs: %s, native %s" % (fs[1:5], b.reshape(-1).tolist()[:12], a.reshape(-1).tolist()[:12]))
    finally:
        lm.reset(); [b.unreg(k, "") for b, c, k in reg]
dl_case = st.tuples(st.sampled_from(["mesh", "medium", "medium", "image", "image", "image"]), st.integers(0, 10**6), st.tuples(st.integers(1, 4), *[st.integers(0, 1)] * 6), st.integers(0, 3))

# --- contexts, callbacks ----------------------------------------------------------------------------------
class PyLog(lm.log.LoggerContext):
    rec = []
    def __init__(self): lm.log.LoggerContext.__init__(self)
    def construct(self, prop): PyLog.rec.append(("construct", prop))
    def log(self, level, severity, filename, line, message): PyLog.rec.append(("log", int(level), severity, filename, line, message))
    def update_indentation(self, n): PyLog.rec.append(("indent", n))
    def set_severity(self, n): PyLog.rec.append(("severity", n))
lm.log.LoggerContext.reg(PyLog, "logger::p26")
class PyProg(lm.progress.ProgressContext):
    rec = []
    def __init__(self): lm.progress.ProgressContext.__init__(self)
    def construct(self, prop): PyProg.rec.append(("construct", prop))
    def start(self, mode, total, t): PyProg.rec.append(("start", int(mode), total, t))
    def end(self): PyProg.rec.append(("end",))
    def update(self, n): PyProg.rec.append(("update", n))
    def update_time(self, t): PyProg.rec.append(("time", t))
lm.progress.ProgressContext.reg(PyProg, "progress::p26")
def c_context(case):
    which, a, ops = case
    if which == 0:
        label("log"); lm.log.init("p26", a); PyLog.rec.clear(); want = []
        try:
            for k, x, y, s, t in ops:
                if k == 0: vpy.log(x % 4, y, s, x, t); want.append(("log", x % 4, y, s, x, t))
                elif k == 1: vpy.log_thread(x % 4, y, s, x, t); want.append(("log", x % 4, y, s, x, t))
                elif k == 2: vpy.log_indent(y); want.append(("indent", y))
                elif k == 3: vpy.log_severity(y); want.append(("severity", y))
                else: lm.log.log(lm.log.LogLevel.Info, y, s, x, t); want.append(("log", int(lm.log.LogLevel.Info), y, s, x, t))
            got = list(PyLog.rec)
        finally: lm.log.init("default"); lm.log.set_severity(100000)
        ok(got == want, "logger", lambda: "logger written in Python saw %r, expected %r" % (got, want))
    elif which == 1:
        label("progress"); lm.progress.init("p26", a); PyProg.rec.clear()
        ps = [abs(y) * 10**7 + x for k, x, y, s, t in ops]; ts = [x / 7 for k, x, y, s, t in ops]
        try: vpy.progress(len(ops) % 2, 2**40 + len(ops), 1.5, ps, ts); got = list(PyProg.rec)
        finally: lm.progress.init("default")
        want = [("start", len(ops) % 2, 2**40 + len(ops), 1.5)] + [("update", p) for p in ps] + [("time", t) for t in ts] + [("end",)]
        ok(got == want, "progress", lambda: "progress context written in Python saw %r, expected %r" % (got, want))
    else:
        label("poll"); got = []; lm.debug.reg_on_poll(lambda v: got.append(v)); want = []
        try:
            for k, x, y, s, t in ops: v = {"k": k, "s": s, "t": [t, y, x / 3]}; (vpy.poll if k % 2 else vpy.poll_thread)(json.dumps(v)); want.append(v)
            lm.debug.poll(a); want.append(a)
        finally: lm.debug.reg_on_poll(None)
        ok(all(equal(g, w) for g, w in zip(got, want)) and len(got) == len(want), "poll", lambda: "callback saw %r, expected %r" % (got, want))
txt = st.text(alphabet=st.characters(blacklist_characters="\0", blacklist_categories=("Cs",)), max_size=12)
ctx_case = st.tuples(st.integers(0, 2), st.dictionaries(st.text(max_size=4), st.one_of(st.integers(-5, 5), st.text(max_size=3), st.floats(allow_nan=False)), max_size=3), st.lists(st.tuples(st.integers(0, 4), st.integers(0, 1000), st.integers(-100, 100), txt, txt), max_size=6))

# --- histories of components written in Python ---------------------------------------------------------------
LIVE = {}
class PyAsset(lm.Renderer):
    n = 0
    def __init__(self): lm.Renderer.__init__(self); PyAsset.n += 1; self.id = PyAsset.n; self.v = None; self.constructed = 0; LIVE[self.id] = weakref.ref(self)
    def construct(self, prop):
        self.v = prop.get("v"); self.constructed += 1
        if prop.get("fail"): raise ValueError("constructor failed")
    def render(self): return {"v": self.v, "id": self.id}
    def save(self): return pickle.dumps(self.v)
    def load(self, s): self.v = pickle.loads(s)
lm.Renderer.reg(PyAsset, "renderer::p26a")
hist_case = st.lists(st.tuples(st.sampled_from(["load", "load", "load", "native", "fail", "get", "hold", "drop", "render", "reset", "gc", "create", "save", "serial"]), st.integers(0, 3), st.one_of(st.integers(-9, 9), st.text(max_size=4), st.lists(small, max_size=3), st.integers(1, 2).map(lambda n: "longtext" * (1000 * n)))), min_size=1, max_size=14)
def alive():
    gc.collect(); return {i for i, w in LIVE.items() if w() is not None}
def c_history(case):
    lm.reset(); LIVE.clear(); gc.collect(); model = {}; held = []; tmp = os.path.join(os.environ.get("TMPDIR", "/tmp"), "p26-%d.lm" % os.getpid()); label("history")
    film = lm.load_film("film", "bitmap", {"w": 1, "h": 1}); exp = set()
    for op, k, v in case:
        name = "a%d" % k; loc = "$.assets." + name; label("h-" + op)
        if op in ("load", "fail"):
            old = model.get(name)
            try: p = lm.load(name, "renderer::p26a", {"v": v, "fail": op == "fail"})
            except PyErr as e: ok(op == "fail", "history-load", "loading failed: %s" % e); p = None
            if op == "fail": ok(p is None, "history-fail", "a failing constructor yields a component")
            else: ok(type(p) is PyAsset and p.v == v and p.constructed == 1 and p.loc() == loc, "history-load", lambda: "loaded component is %r v=%r loc=%r" % (p, getattr(p, "v", None), p.loc())); model[name] = ("py", p.id, v)
            p = None
        elif op == "native": lm.load(name, "renderer::blank", {"output": film, "color": [1, 0, 0]}); model[name] = ("native", None, None)
        elif op == "create":
            p = lm.Renderer.create("renderer::p26a", "", {"v": v}); ok(type(p) is PyAsset and p.v == v, "history-create", "created component is %r" % p); i = p.id
            ok(equal(json.loads(vpy.renderer_render(p)), {"v": v, "id": i}), "history-create", "created component renders wrong"); held.append(p) if k % 2 else None; p = None
        elif op in ("get", "hold", "render", "save"):
            p = lm.get(loc); w = model.get(name)
            if w is None: ok(p is None, "history-get", "%s exists" % loc); p = None; continue
            ok(p is not None and vpy.addr(p) == vpy.addr_of(loc), "history-identity", "%s is another component" % loc)
            if w[0] == "py":
                ok(type(p) is PyAsset and p.id == w[1] and equal(p.v, w[2]), "history-get", lambda: "%s is %r with v=%r, expected %r" % (loc, p, getattr(p, "v", None), w))
                if op == "render": out = json.loads((vpy.renderer_render_thread if k % 2 else vpy.renderer_render)(p)); ok(equal(out, {"v": w[2], "id": w[1]}), "history-render", lambda: "render gives %r, expected v=%r id=%r" % (out, w[2], w[1])); ok(equal(p.render(), {"v": w[2], "id": w[1]}), "history-render", "render from Python")
                if op == "save": b = vpy.save(p); q = lm.Renderer.create("renderer::p26a", "", {"v": None}); vpy.load(q, b); ok(equal(q.v, w[2]), "history-save", lambda: "saved %r, loaded %r" % (w[2], q.v)); q = None
                if op == "hold": held.append(p)
            p = None
        elif op == "serial":
            if model.get(name, ("",))[0] == "py":
                dst = "a%d" % ((k + 1) % 4); lm.get(loc).save_to_file(tmp)
                try: q = lm.load_serialized(dst, tmp)
                except PyErr as e: ok(dst in model, "history-serial", "reading back failed: %s" % str(e)[:100]); q = None
                os.unlink(tmp)
                if q is not None: ok(type(q) is PyAsset and equal(q.v, model[name][2]) and q.loc() == "$.assets." + dst, "history-serial", lambda: "read back %r v=%r, expected %r" % (q, getattr(q, "v", None), model[name][2])); model[dst] = ("py", q.id, model[name][2])
                q = None
        elif op == "drop": held.clear()
        elif op == "reset": held.clear(); lm.reset(); model.clear(); film = lm.load_film("film", "bitmap", {"w": 1, "h": 1})
        elif op == "gc": gc.collect()
        need = {w[1] for w in model.values() if w[0] == "py"}
        a = alive(); ok(need <= a, "history-dead", lambda: "assets %s were destroyed" % (need - a))
        if not held: ok(a <= need, "history-leak", lambda: "%d components written in Python stay alive after they were replaced or dropped (after %s)" % (len(a - need), op))
    lm.reset(); held.clear(); film = None; a = alive(); ok(not a, "history-leak-end", lambda: "%d components written in Python stay alive after reset" % len(a))

# --- native components called from Python: same results as the calls made by the engine ---------------------
def native_of(iface, R):
    V = lambda n=3, s=2.: [R.uniform(-s, s) for _ in range(n)]; C = lambda: [R.random() for _ in range(3)]; k = R.random()
    if iface == "Texture": return lm.load_texture("n", "constant", {"color": C()})
    if iface == "Volume": return lm.load_volume("n", "constant", {"bound_min": [-1, -1, -1], "bound_max": [1, 1, 1], "color": C(), "scalar": R.random()}) if k < .4 else lm.load_volume("n", "gaussian", {"color": C(), "scalar": R.random(), "pos": V(), "sigma": V()[:3]}) if k < .6 else lm.load_volume("n", "sphere", {"color": C(), "scalar": R.random(), "pos": V(), "radius": 1.5})
    if iface == "Phase": return lm.load_phase("n", "hg", {"g": R.uniform(-.9, .9)}) if k < .7 else lm.load_phase("n", "isotropic", {})
    if iface == "Medium": return lm.load_medium("n", "homogeneous", {"density": R.random(), "albedo": C(), "phase": lm.load_phase("np", "isotropic", {}), "bound_min": [-2, -2, -2], "bound_max": [2, 2, 2]})
    if iface == "Camera": return lm.load_camera("n", "pinhole", {"position": V(), "center": V(), "up": [0, 1, 0], "vfov": R.uniform(10, 100), "aspect": R.uniform(.5, 2)})
    if iface == "Light": return lm.load_light("n", "point", {"Le": C(), "position": V()}) if k < .3 else lm.load_light("n", "directional", {"Le": C(), "direction": V()}) if k < .6 else lm.load_light("n", "envconst", {"Le": C()})
    if iface == "Material": return lm.load_material("n", "diffuse", {"Kd": C()}) if k < .4 else lm.load_material("n", "glossy", {"Ks": C(), "ax": R.uniform(.1, .9), "ay": R.uniform(.1, .9)}) if k < .8 else lm.load_material("n", "mirror", {})
    if iface == "Mesh": return lm.load_mesh("n", "raw", {"ps": V(9), "ns": V(9), "ts": V(6), "fs": {"p": [0, 1, 2], "n": [0, 1, 2], "t": [0, 1, 2]}})
    if iface == "Film": return lm.load_film("n", "bitmap", {"w": 4, "h": 3})
CALLS = [k for k, t in enumerate(TR) if hasattr(getattr(lm, t[0]), t[1]) and t[0] != "Scene" and (t[0], t[1]) not in {("Film", "save")}] if True else []
@st.composite
def call_case(draw):
    k = draw(st.sampled_from(CALLS)); t = TR[k]
    return (k, draw(st.integers(0, 10**6)), [draw(st.integers(0, 2) if a == "i" else KIND[a]) for a in t[2]], draw(st.sampled_from(["c", "step2", "rev", "column", "field"])))
def flat(rk, x):
    if x is None: return None
    if rk in ("v3", "ov2"): return [float(q) for q in x]
    if rk == "m": return [float(q) for q in x.reshape(-1)]
    if rk == "r": return [float(q) for q in x.o] + [float(q) for q in x.d]
    return x
def c_call(case):
    k, seed, args, lay = case; iface, fn, kinds, rk = TR[k]; label("call-" + iface + "." + fn); lm.reset(); R = random.Random(seed); o = native_of(iface, R)
    if (iface, fn) == ("Material", "is_specular_component"): args = [0]
    if (iface, fn) == ("Material", "pdf_direction"): args[3] = 0
    def conv(kd, x):
        if kd in ("v2", "v3"): return build1(("d", tuple(x), lay))
        if kd == "g": return vpy.geom_make(list(x))
        return x
    if iface == "Volume" and fn == "eval_scalar" and not o.has_scalar() or iface == "Volume" and fn == "eval_color" and not o.has_color(): return
    def both(f):
        try: return f(), None
        except PyErr as e: return None, str(e)
    a, ea = both(lambda: flat(rk, getattr(o, fn)(*[conv(kd, x) for kd, x in zip(kinds, args)])))
    if rk == "-": a = vpy.film_list(o) if iface == "Film" else vpy.camera_projection_matrix(o); o = native_of(iface, random.Random(seed))
    b, eb = both(lambda: getattr(vpy, iface.lower() + "_" + fn)(o, *args))
    if rk == "-": b = vpy.film_list(o) if iface == "Film" else vpy.camera_projection_matrix(o)
    ok((ea is None) == (eb is None), "call-error", lambda: "%s.%s%r from Python: %s, native: %s" % (iface, fn, tuple(args), ea, eb))
    same_ = same_list(a, b) if isinstance(a, list) and isinstance(b, list) else a is None and b is None or a is not None and b is not None and (same(a, b) if rk == "f" else a == b)
    ok(same_, "call", lambda: "%s.%s%r from Python gives %r, native %r" % (iface, fn, tuple(args), a, b))

# --- scenes and assets built from Python against an own model -------------------------------------------------
sc_case = st.tuples(st.integers(0, 10**6), st.lists(st.tuples(st.integers(0, 5), st.integers(0, 30), st.integers(0, 30), st.sampled_from(LAY2[:-1])), min_size=1, max_size=10), st.integers(0, 3), st.integers(1, 4), st.integers(0, 60))
def c_scene(case):
    seed, ops, how, nt, n = case; lm.reset(); R = random.Random(seed); label("scene"); group = lm.load_asset_group("g", "default", {}) if how & 1 else None; pre = "$.assets.g." if group is not None else "$.assets."
    def load(kind, name, impl, prop):
        f = getattr(group if group is not None else lm, "load_" + kind); p = f(name, impl, prop) if how < 2 else f(name, impl, **prop); full = pre + name
        ok(p is not None and p.loc() == full and p.key() == kind + "::" + impl and p.parentLoc() == pre[:-1] and p.make_loc("x") == full + ".x" and vpy.addr_of(full) == vpy.addr(p), "load", lambda: "asset loaded as %s is %r with locator %r, key %r, parent %r" % (full, p, p and p.loc(), p and p.key(), p and p.parentLoc()))
        q = getattr(lm, "get_" + kind)(full); ok(q is not None and vpy.addr(q) == vpy.addr(p) and vpy.addr(lm.get(full)) == vpy.addr(p) and vpy.addr(lm.comp.get(full)) == vpy.addr(p), "get", "get_%s(%s)" % (kind, full)); 
        wrong = "camera" if kind != "camera" else "mesh"; ok(getattr(lm, "get_" + wrong)(full) is None, "get-other", "get_%s(%s) of a %s yields a component" % (wrong, full, kind)); return p
    ms = [load("mesh", "m%d" % i, "raw", {"ps": [R.uniform(-1, 1) for _ in range(9)], "ns": [0, 0, 1], "ts": [0, 0], "fs": {"p": [0, 1, 2], "n": [0, 0, 0], "t": [0, 0, 0]}}) for i in range(2)]
    mt = load("material", "mt", "diffuse", {"Kd": [.1, .2, .3]}); cam = load("camera", "cam", "pinhole", {"position": [0, 0, 5], "center": [0, 0, 0], "up": [0, 1, 0], "vfov": 40, "aspect": 1}); li = load("light", "li", "area", {"Ke": [1, 2, 3], "mesh": ms[0]}); ac = load("accel", "ac", "sahbvh", {})
    s = load("scene", "s", "default", {"accel": ac}); nodes = [("g", [], np.eye(4), None)]; ok(s.root_node() == 0 and s.num_nodes() == 1, "scene-root", "empty scene"); par = {0: None}; hascam = False
    for op, a, b, lay in ops:
        groups = [i for i, x in enumerate(nodes) if x[0] == "g"]
        if op in (0, 1):
            pr = {"mesh": ms[a % 2], "material": mt}
            if b % 3 == 0: pr["light"] = li; pr["mesh"] = ms[0]
            T = np.eye(4)
            if op == 0: s.add_primitive(pr) if a & 2 else s.add_primitive(**pr)
            else: T = build2(("d", (4, 4), tuple([R.uniform(-1, 1) for _ in range(12)] + [0, 0, 0, 1]), lay)); s.add_transformed_primitive(T, pr) if a & 2 else s.add_transformed_primitive(T, **pr)
            g = len(nodes); nodes.append(("g", [g + 1], np.array(T), None)); nodes.append(("p", [], None, pr)); nodes[0][1].append(g); par[g] = 0; par[g + 1] = g
        elif op == 2:
            T = build2(("d", (4, 4), tuple([R.uniform(-1, 1) for _ in range(12)] + [0, 0, 0, 1]), lay)); i = s.create_group_node(T); ok(i == len(nodes), "scene-index", "index of a new group"); nodes.append(("g", [], np.array(T), None))
        elif op == 3:
            pr = {"mesh": ms[a % 2], "material": mt}; i = s.create_primitive_node(pr) if b & 1 else s.create_primitive_node(**pr); ok(i == len(nodes), "scene-index", "index of a new primitive"); nodes.append(("p", [], None, pr))
        elif op == 4:
            free = [i for i in range(1, len(nodes)) if i not in par]
            if free:
                c = free[a % len(free)]; ok_ = [g for g in groups if g != c and g in par or g == 0]; g = ok_[b % len(ok_)]; s.add_child(g, c); nodes[g][1].append(c); par[c] = g
        elif not hascam: hascam = True; i = s.create_primitive_node({"camera": cam}); nodes.append(("p", [], None, {"camera": cam})); s.add_child(0, i); nodes[0][1].append(i); par[i] = 0
    ok(s.num_nodes() == len(nodes), "scene-nodes", lambda: "%d nodes, expected %d" % (s.num_nodes(), len(nodes)))
    for i, (k, ch, T, pr) in enumerate(nodes):
        d = s.node_at(i); ok(d.index == i and d.type == (lm.SceneNodeType.Group if k == "g" else lm.SceneNodeType.Primitive), "scene-node", "type of node %d" % i)
        if k == "g": ok(list(d.group.children) == ch and not d.group.instanced and (d.group.local_transform is None if i == 0 else d.group.local_transform is not None and np.array_equal(d.group.local_transform, T)), "scene-group", lambda: "group %d is %r %r, expected %r %r" % (i, d.group.children, d.group.local_transform, ch, T))
        else:
            for kind in ("mesh", "material", "light", "camera", "medium"):
                q = getattr(d.primitive, kind); w = pr.get(kind); ok((q is None) == (w is None) and (w is None or vpy.addr(q) == vpy.addr(w)), "scene-primitive", lambda: "%s of primitive %d is %r" % (kind, i, q))
    want = []
    def walk(i, M):
        if nodes[i][0] == "p": want.append((i, M)); return
        for c in nodes[i][1]: walk(c, M @ nodes[i][2])
    walk(0, np.eye(4)); got = []; s.traverse_primitive_nodes(lambda d, M: d.type == lm.SceneNodeType.Primitive and got.append((d.index, np.array(M))))
    ok([g[0] for g in got] == [w[0] for w in want] and all(np.allclose(g[1], w[1], atol=1e-9) for g, w in zip(got, want)), "scene-traverse", lambda: "traversal visits %r, expected %r" % (got, want))
    vis = []; s.visit_node(0, lambda d: vis.append(d.index)); ok(vis == [0], "scene-visit", "visit_node")
    if hascam: c = s.camera(); ok(vpy.addr(c) == vpy.addr(cam) and s.camera_node() == next(i for i, x in enumerate(nodes) if x[3] and "camera" in x[3]), "scene-camera", "camera")
    def bound(f):
        try: return f()
        except PyErr as e: return "error"
    for w in ("primitive", "camera", "light", "accel", "renderable"): x = bound(lambda: getattr(s, "require_" + w)()); y = bound(lambda: vpy.scene_require(s, w)); ok(x == y, "scene-require", lambda: "require_%s from Python gives %r, native %r" % (w, x, y))
    names = []; lm.comp.foreach_registered(lambda x: names.append(x)); ok(sorted(names) == sorted(vpy.registered()), "registered", lambda: "registered components %r" % names); hits = []
    if any("mesh" in nodes[i][3] for i, _ in want):
        s.build(); ok(vpy.addr(s.accel()) == vpy.addr(ac), "scene-accel", "acceleration structure")
        for _ in range(6):
            o = [R.uniform(-2, 2) for _ in range(3)]; d = np.array([R.uniform(-1, 1) for _ in range(3)]); d /= np.linalg.norm(d); r = lm.Ray(); r.o = np.array(o); r.d = d; a = R.choice([0., lm.Eps, .5]); b = R.choice([lm.Inf, 2.])
            h = s.intersect(r, a, b); v = vpy.scene_intersect(s, o + list(map(float, d)), a, b)
            ok((h is None) == (v is None) and (h is None or (int(h.type), h.primitive) == tuple(v[0]) and (lambda x, y: same_list(x[:9] + x[12:], y[:9] + y[12:]))(geo_list(h.geom), v[1])), "scene-intersect", lambda: "intersection from Python %r differs from the native one %r" % (h and (int(h.type), h.primitive, geo_list(h.geom)), v))
            if a == lm.Eps and b == lm.Inf: h2 = s.intersect(r) if R.random() < .5 else s.intersect(ray=r, tmax=b); ok((h2 is None) == (h is None) and (h is None or h2.primitive == h.primitive and list(h2.geom.p) == list(h.geom.p)), "scene-intersect-default", "intersection with default range")
            if h is not None:
                hits.append(h)
                for x in hits: ok(s.visible(h, x) == vpy.scene_visible(s, h, x), "scene-visible", "visibility of two points")
            if h is not None: ok(s.is_light(h) == ("light" in nodes[h.primitive][3]) and not s.is_camera(h), "scene-is-light", "is_light")
            ah = vpy.accel_intersect(ac, o + list(map(float, d)), a, b); ph = ac.intersect(r, a, b)
            ok((ah is None) == (ph is None) and (ah is None or same_list([ph.t, *map(float, ph.uv), float(ph.primitive), float(ph.face)], ah[:5])), "accel-intersect", "intersection with the acceleration structure")
        for h in hits[:2]: # default range: far and very near surfaces
            d = np.array([R.uniform(-1, 1) for _ in range(3)]); d /= np.linalg.norm(d); p = np.array(h.geom.p); 
            for k in (R.choice([1.5e3, 1e5]), 5e-4, R.choice([2e-3, .1])):
                r = lm.Ray(p - d * k, d); x = s.intersect(r, lm.Eps, lm.Inf); y = s.intersect(r); ok((x is None) == (y is None) and (x is None or x.primitive == y.primitive and list(x.geom.p) == list(y.geom.p)), "scene-intersect-default", lambda: "intersection at distance %r with the default range" % k)
        ok(s.num_lights() == sum("light" in nodes[i][3] for i, _ in want), "scene-lights", "number of lights")
    lm.parallel.init("openmp", {"num_threads": nt}); idx = []; lm.parallel.foreach(n, lambda i, t: idx.append((i, t))); ok(sorted(i for i, t in idx) == list(range(n)) and all(0 <= t < lm.parallel.num_threads() for i, t in idx), "foreach", lambda: "parallel.foreach(%d) with %d threads called %r" % (n, nt, sorted(idx)))

# --- models and whole states ------------------------------------------------------------------------------------
model_case = st.tuples(st.lists(st.tuples(st.integers(1, 4), st.booleans()), min_size=1, max_size=4), st.integers(0, 10**6))
def c_model(case):
    gs, seed = case; lm.reset(); R = random.Random(seed); label("model"); base = os.path.join(os.environ.get("TMPDIR", "/tmp"), "p26-%d" % os.getpid())
    with open(base + ".mtl", "w") as f:
        for i, (n, e) in enumerate(gs): f.write("newmtl m%d\nKd %f .2 .3\n%s" % (i, R.random(), "Ke 1 1 1\n" if e else ""))
    with open(base + ".obj", "w") as f:
        f.write("mtllib %s\n" % os.path.basename(base + ".mtl")); k = 0
        for i, (n, e) in enumerate(gs):
            f.write("usemtl m%d\n" % i)
            for _ in range(n): [f.write("v %f %f %f\n" % tuple(R.uniform(-1, 1) for _ in range(3))) for _ in range(3)]; f.write("f %d %d %d\n" % (k + 1, k + 2, k + 3)); k += 3
    m = lm.load_model("mo", "wavefrontobj", {"path": base + ".obj"}); A = lambda c: 0 if c is None else vpy.addr(c)
    def nodes(f):
        try: return f()
        except Exception as e: return type(e).__name__
    def mine():
        got = []; m.foreach_node(lambda n: got.append([n.index, int(n.type)] + ([A(n.primitive.mesh), A(n.primitive.material), A(n.primitive.light)] if n.type == lm.SceneNodeType.Primitive else [0, 0, 0]))); return got
    got = nodes(mine); want = nodes(lambda: [w if w[1] == int(lm.SceneNodeType.Primitive) else w[:2] + [0, 0, 0] for w in vpy.model_nodes(m)])
    ok(got == want, "model-nodes", lambda: "nodes of a model %r, native %r" % (got, want))
    prim = []; m.create_primitives(lambda a, b, c: prim.append([A(a), A(b), A(c)])); w = vpy.model_primitives(m); ok(prim == w and len(w) == len(gs) and [x[2] != 0 for x in prim] == [e for _, e in gs], "model-primitives", lambda: "primitives of a model %r, native %r" % (prim, w))
    for x in vpy.model_primitives(m):
        for a in x:
            if a: l = vpy.loc_of_addr(a); c = lm.get(l); u = m.underlying(l.split(".")[-1]); ok(A(c) == a and A(u) == a and c.loc() == l, "model-underlying", lambda: "component %s of a model" % l)
    lm.load_accel("ac", "sahbvh", {}); s = lm.load_scene("s", "default", {"accel": "$.assets.ac"}); root = s.root_node()
    if seed & 1: root = s.create_group_node(lm.identity()); s.add_child(s.root_node(), root)
    s.add_child_from_model(root, "$.assets.mo")
    s.build(); rays = []
    for _ in range(6): o = [R.uniform(-2, 2) for _ in range(3)]; d = np.array([R.uniform(-1, 1) for _ in range(3)]); d /= np.linalg.norm(d); rays.append((o, list(map(float, d))))
    shots = lambda s: [vpy.scene_intersect(s, o + d, lm.Eps, lm.Inf) for o, d in rays]; key = lambda h: [None if x is None else (x[0], x[1][:9]) for x in h]
    before = key(shots(s)); nl = s.num_lights(); ok(nl == sum(e for _, e in gs), "model-lights", "lights of the scene"); lm.save_state_to_file(base + ".lm"); lm.reset(); gc.collect(); ok(lm.get("$.assets.s") is None, "state-reset", "the scene exists after reset")
    lm.load_state_from_file(base + ".lm"); s = lm.get_scene("$.assets.s"); ok(s is not None and s.num_lights() == nl and key(shots(s)) == before, "state-load", "the loaded scene differs from the saved one")
    m = lm.get_model("$.assets.mo"); ok(m is not None and len(vpy.model_primitives(m)) == len(gs), "state-model", "the loaded model differs")
    for e in (".mtl", ".obj", ".lm"): os.unlink(base + e)

KINDS = {"json": (st.tuples(tree, st.integers(0, 3)), c_json, 3), "native": (native, c_native, 1), "vec": (vec_case, c_vec, 3), "mat": (mat_case(), c_mat, 3), "struct": (struct_case, c_struct, 1), "film": (film_case, c_film, 1),
         "math": (math_case, c_math, 1), "override": (tr_case(), c_tr, 5), "delegate": (dl_case, c_delegate, 2), "context": (ctx_case, c_context, 1), "history": (hist_case, c_history, 2), "call": (call_case(), c_call, 2), "scene": (sc_case, c_scene, 2), "model": (model_case, c_model, 1)}
def nontrivial(kind, case):
    if kind == "vec": return case[1][2] not in ("c", "list", "tuple") or len(case[1][1]) != case[0][1] or case[1][0] != case[0][2]
    if kind == "mat": return case[1][3] != "c"
    if kind in ("json",): return isinstance(case[0], (list, dict, tuple)) and len(case[0]) > 0
    if kind == "native": return isinstance(case, (list, dict, tuple)) and len(case) > 0
    if kind == "history": return len(case) > 2
    return True
def run_case(kind, case): KINDS[kind][1](case)

RULE = "case = one description drawn by a hypothesis strategy: nested parameter values (all Python scalars, integers beyond 32/64 bits, numpy scalars and arrays, component references, foreign objects), vectors/matrices over dtypes, shapes and memory layouts (strided, reversed, Fortran order, broadcast, unaligned, record fields, read-only), structures and film buffers, every overridable function of every interface implemented in Python with generated arguments and results and called by native code, Python wrappers around native components against the native ones (images, random number streams), native components called from Python against the same calls made by native code, asset groups and scene graphs built from Python against an own model, models and saved states, logger/progress/poll callbacks from native threads, and load/replace/get/hold/save/reset histories of components written in Python. Non-trivial: vectors and matrices that are not plain contiguous arrays of the right type and size, nested values with elements, histories longer than two, all others."
ASSUME = ["numpy values of other element types and integers beyond 32 bits may be refused with a Python error instead of being converted", "interfaces are overridden only in functions whose argument types are exposed to Python", "dictionary keys are strings; text is valid Unicode", "cyclic Python values are out of the domain"]

def worker(i, tier, seed, seconds, fork, only, outdir, q):
    random.seed(seed * 1009 + i); cur = open(os.path.join(outdir, "cur-%d" % i), "wb+")
    t0 = time.time(); stats = collections.Counter(); uniq = set(); samples = []; fail = None; names = [n for n in KINDS for _ in range(KINDS[n][2])] if not only else [only]
    rnd = random.Random(seed * 7919 + i); round_ = 0; tick = time.time()
    while time.time() - t0 < seconds and fail is None:
        name = rnd.choice(names) if round_ or only else names[(i * 3) % len(names)]; round_ += 1; strat = KINDS[name][0]; last = {}
        def body(case):
            if time.time() - t0 > seconds + (40 if last else 0): return
            cur.seek(0); pickle.dump((name, case), cur); cur.flush()
            stats["evaluations"] += 1; stats["k-" + name] += 1
            if nontrivial(name, case):
                h = hash((name, repr(case)))
                if h not in uniq: uniq.add(h); (len(samples) < 8 and stats["evaluations"] % 37 == 1) and samples.append(name + ": " + repr(case)[:300])
            if not fork:
                try: run_case(name, case)
                except Fail as e: last.update(key=e.key, msg=e.msg, case=case); raise
                except Exception as e: last.update(key="exception-" + name, msg=type(e).__name__ + ": " + str(e)[:400] + " | " + traceback.format_exc()[-400:].replace("\n", " / "), case=case); raise Fail("exception-" + name, str(e))
            else:
                r, w = os.pipe(); pid = os.fork()
                if pid == 0:
                    os.close(r); m = b""; signal.alarm(20)
                    try: run_case(name, case)
                    except Fail as e: m = pickle.dumps((e.key, e.msg))
                    except BaseException as e: m = pickle.dumps(("exception-" + name, repr(e)))
                    os.write(w, m); os._exit(0)
                os.close(w); m = os.read(r, 1 << 16); os.close(r); _, st_ = os.waitpid(pid, 0)
                if os.WIFSIGNALED(st_): last.update(key="crash-" + name, msg="the process died with signal %d" % os.WTERMSIG(st_), case=case); raise Fail("crash-" + name, "signal")
                if m: k, t = pickle.loads(m); last.update(key=k, msg=t, case=case); raise Fail(k, t)
        test = hypothesis.seed(seed * 100003 + i * 1009 + round_)(settings(max_examples=60 if name != "delegate" else 25, database=None, deadline=None, print_blob=False, report_multiple_bugs=False, suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink))(given(strat)(body)))
        try: test()
        except Fail: fail = dict(last, kind=name)
        except BaseException as e:
            if last: fail = dict(last, kind=name)
            else: fail = dict(key="internal", msg=repr(e)[:500], case=None, kind=name)
        if fail and fail["key"] in KNOWN: stats["known:" + fail["key"]] += 1; fail = None
    q.put((i, dict(stats), len(uniq), samples, fail, dict(LABELS), CHECKS))

KNOWN = {}
def main():
    if ARGS.known and os.path.exists(ARGS.known):
        for l in open(ARGS.known):
            if "\t" in l: k, w = l.rstrip("\n").split("\t", 1); KNOWN[k] = w
    out = ARGS.out
    if ARGS.replay:
        d = json.load(open(ARGS.replay)); kind, case = pickle.loads(base64.b64decode(d["case"])); print("replay of", kind, repr(case)[:1000]); sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try: run_case(kind, case)
            except BaseException as e: print("fails: %s" % (getattr(e, "msg", None) or repr(e))); sys.stdout.flush(); os._exit(1)
            os._exit(0)
        _, s = os.waitpid(pid, 0)
        if s: print("VIOLATION property=P26 replay=%s" % ARGS.replay); return 1
        print("the case passes"); return 0
    sec = ARGS.seconds or (35 if ARGS.tier == "quick" else 900); tmp = os.environ.get("TMPDIR", "/tmp"); t0 = time.time()
    def launch(idx, seconds, fork=False, only=None):
        q = mp.get_context("fork").Queue(); ps = {}
        for i in idx: p = mp.get_context("fork").Process(target=worker, args=(i, ARGS.tier, ARGS.seed, seconds, fork, only, tmp, q)); p.start(); ps[i] = p
        res = {}; end = time.time() + seconds + 90
        while len(res) < len(ps) and time.time() < end:
            try: r = q.get(timeout=.5); res[r[0]] = r
            except Exception:
                if all(not p.is_alive() for p in ps.values()) and q.empty():
                    try:
                        while True: r = q.get(timeout=.5); res[r[0]] = r
                    except Exception: break
        for p in ps.values():
            if p.is_alive(): p.kill()
            p.join()
        return res, {i: p.exitcode for i, p in ps.items() if i not in res}
    res, dead = launch(range(ARGS.workers), sec)
    fails = [r[4] for r in res.values() if r[4]]; fail = fails[0] if fails else None
    for f in fails[1:]: print("also: key=%s %s input: %s" % (f["key"], f["msg"][:600], repr(f["case"])[:300]))
    if dead and not fail:
        i, code = next(iter(dead.items())); kind, case = pickle.load(open(os.path.join(tmp, "cur-%d" % i), "rb"))
        fail = dict(key=("crash-" if code and code < 0 and code != -9 else "hang-") + kind, msg="the interpreter died (exit code %s)" % code, case=case, kind=kind)
        if fail["key"].startswith("crash"):
            r2, _ = launch([i], 60, True, kind)         # shrink with one process per case
            f2 = next((r[4] for r in r2.values() if r[4]), None)
            if f2 and f2["key"] == fail["key"]: fail = f2
        if fail["key"] in KNOWN: fail = None
    tot = collections.Counter(); lab = collections.Counter(); samples = []; uniq = 0; checks = 0
    for r in res.values(): tot.update(r[1]); lab.update(r[5]); samples += r[3]; uniq += r[2]; checks += r[6]
    rc = 0
    for k, w in KNOWN.items():
        if tot.get("known:" + k): print("KNOWN-FINDING: property=P26 " + w)
    if fail:
        os.makedirs(os.path.join(out, "replays"), exist_ok=True); rp = os.path.join(out, "replays", "P26-%d-%s.replay" % (ARGS.seed, fail["kind"]))
        json.dump({"key": fail["key"], "message": fail["msg"], "description": repr(fail["case"])[:5000], "case": base64.b64encode(pickle.dumps((fail["kind"], fail["case"]))).decode()}, open(rp, "w"), indent=1)
        print("failure key=%s\n%s\ninput: %s" % (fail["key"], fail["msg"], repr(fail["case"])[:1500])); rc = 1
    ev = {"property": "P26", "tier": ARGS.tier, "seed": ARGS.seed, "level": "exploration", "coverage": {"evaluations": tot["evaluations"], "distinct_nontrivial": uniq, "oracle_checks": checks, "rule": RULE, "labels": dict(sorted(lab.items())), "kinds": {k[2:]: v for k, v in sorted(tot.items()) if k.startswith("k-")}, "samples": samples[:12] or ["none"]}, "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": rc}
    os.makedirs(os.path.join(out, "evidence"), exist_ok=True); json.dump(ev, open(os.path.join(out, "evidence", "P26.json"), "w"), indent=1)
    print("P26 %s seed=%d: %d cases, %d distinct non-trivial, %d oracle checks, %.1fs" % (ARGS.tier, ARGS.seed, tot["evaluations"], uniq, checks, time.time() - t0))
    if rc: print("VIOLATION property=P26 replay=" + rp)
    sys.stdout.flush()
    return rc
if __name__ == "__main__":
    rc = main(); sys.stdout.flush(); os._exit(rc)
