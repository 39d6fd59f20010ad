"""C22: Grid value-function combination is min-plus and the passes combine the blocks in order."""
import importlib, random, itertools
from fractions import Fraction
import numpy as np, z3
from vlib.run import Check, Env, mval, Inconclusive
from vlib import zsym, symnp, poly, jaxshim
from vlib.zsym import RealT, zval
from vlib.symnp import arr, unwrap, asobj
from vlib.poly import var

chk = Check("C22",
    bounds_text="combinations: every pair of value functions on grids of 1 to 5 points without and 2 to 5 points with interpolation, TensorFlow batches of 1 to 3; associativity on 2 and 3 points; scans: every list of up to 6 value functions on 2 points and up to 4 on 3 points; "
                "backward passes: every block value function and terminal value on 2 points with up to 5 blocks (TensorFlow also every parallelism limit from the number of elements up), on 3 and 4 points with one block, and on 3 points with 2 to 3 blocks for one or two free terminal or block values around concrete ones",
    outside="larger grids and numbers of blocks, value functions comparable with the 1e20 infinity constant in interpolation, rounding, parallelism limits below the number of elements",
    explanation="combination functions and passes executed on z3 reals (minima, minimisers and gathers as guarded terms; JAX on a symbolic array layer, TensorFlow graphs traced from the source); results asserted equal to the minimum over the intermediate state, or to the vertex of the parabola through a minimising point and its neighbours, "
                "and the passes to applying the blocks one after the other to the terminal value (with interpolation the parallel pass: to some bracketing of the blocks in their order)")
chk.assumptions = ["floating point modelled as exact real arithmetic", "TensorFlow kernels follow their documented semantics", "numpy/jax min, argmin and indexing modelled by the symbolic layer"]
def _imp():
    global tfsym, tf
    from vlib import tfsym
    import tensorflow as tf
    tfsym.module("hjb_grid_1d_tf")
chk.setup.append(_imp)

# ------------------------------------------------------------------ oracle (fractions, rational functions)
nb = lambda j, n: (abs(j - 1), n - 1 - abs(n - 1 - j - 1))     # neighbours, mirrored at the ends
def vertex(f, j):
    n = len(f); m, p = nb(j, n); d = f[p] + f[m] - 2 * f[j]
    return f[j] if d == 0 else f[j] - (f[p] - f[m]) ** 2 / d / 8
def mins(f, tol=0): m = min(f); return [j for j in range(len(f)) if f[j] - m <= tol]
def comb(A, B, interp):
    o = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for k in range(B.shape[1]):
            f = [A[i, j] + B[j, k] for j in range(A.shape[1])]; o[i, k] = vertex(f, mins(f)[0]) if interp else min(f)
    return o
def argfirst(f):
    j = 0
    for i in range(1, len(f)):
        if f[i] < f[j]: j = i
    return j
def combr(A, B):         # on rational functions, branching
    o = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for k in range(B.shape[1]): f = [A[i, j] + B[j, k] for j in range(A.shape[1])]; o[i, k] = vertex(f, argfirst(f))
    return o
def brackets(l, op):
    if len(l) == 1: return [l[0]]
    return [op(a, b) for s in range(1, len(l)) for a in brackets(l[:s], op) for b in brackets(l[s:], op)]

# ------------------------------------------------------------------ running the code: concrete and symbolic
def table(vals, one):    # terminal cost given on the grid 0, 1, 2, ...
    return vals, one
def call(lib, part, a, real):
    """a: dict of inputs as object arrays; real: the installed package, otherwise the symbolic layer"""
    n = a["n"]
    if lib == "np":
        if real:
            import jax; jax.config.update("jax_enable_x64", True); import jax.numpy as jnp
            m = importlib.import_module("parallel_control.hjb_grid_1d_np"); I = lambda v: jnp.asarray(np.asarray(v, dtype=float)); grid = jnp.arange(n) * 1.0
            LT = lambda x: I(a["LT"])[jnp.asarray(x).astype(int)]
            out = lambda r: np.asarray(r, dtype=float)
        else:
            jaxshim.install(); m = symnp.load("hjb_grid_1d_np"); I = lambda v: arr(np.asarray(v, dtype=object).copy()); grid = jaxshim.jnp_module().arange(n) * 1.0
            def LT(x):
                v = unwrap(asobj(x)); g = lambda q: a["LT"][int(q)]
                return g(v.item() if isinstance(v, np.ndarray) else v) if np.ndim(v) == 0 else arr(np.array([g(q) for q in v.reshape(-1)], dtype=object).reshape(v.shape))
            out = lambda r: unwrap(asobj(r))
        if part.startswith("combine"): return out(getattr(m, part)(I(a["A"][0]), I(a["B"][0])))[None]
        if part.startswith("par_backward_pass_scan"): return np.stack([out(v) for v in getattr(m, part)([I(v) for v in a["E"]])])
        h = m.HJB_Grid_1d(None, None, LT, 1.0, a["blocks"], 3, grid)
        return np.stack([out(v) for v in getattr(h, part)(I(a["V"]))])
    m = importlib.import_module("parallel_control.hjb_grid_1d_tf") if real else tfsym.module("hjb_grid_1d_tf")
    run = (lambda f, *z: np.asarray(f(*[tf.constant(np.asarray(v, dtype=float), tf.float64) for v in z]))) if real else (lambda f, *z: unwrap(asobj(tfsym.run(f, *[arr(np.asarray(v, dtype=object).copy(), 'f') for v in z]))))
    if part.startswith("combine"):
        return run(lambda x, y: getattr(m, part)(x, y), *((a["B"], a["A"]) if part.endswith("rev") else (a["A"], a["B"])))
    mp = {} if a.get("mp") is None else dict(max_parallel=a["mp"])
    def f(V, l):
        LT = lambda x: tf.gather(l, tf.cast(x, tf.int32))
        return getattr(m, part)(LT, a["blocks"], tf.range(n, dtype=tf.float64), V, **mp)
    return run(f, a["V"], a["LT"])

Q = lambda v: np.vectorize(Fraction, otypes=[object])(np.asarray(v, dtype=object))
def near(a, cands, msg):
    a = np.asarray(a, dtype=float)
    for w in cands:
        w = np.asarray(w, dtype=float)
        if a.shape != w.shape: return f"{msg} has shape {a.shape} instead of {w.shape}"
        if np.all(np.abs(a - w) <= 1e-7 * (1 + np.abs(w).max())): return None
    return f"{msg} is {a.tolist()} instead of {np.asarray(cands[0], dtype=float).tolist()}"
@chk.family("combine")
def replay(case):
    A, B, lib, part = Q(case["A"]), Q(case["B"]), case["lib"], case["part"]; it = "interp" in part
    try: r = call(lib, part, dict(A=A, B=B, n=A.shape[1]), True)
    except Exception as ex: return True, f"{lib} {part} raises {type(ex).__name__}: {str(ex)[-300:]}"
    n = A.shape[1]
    if r.shape != A.shape: return True, f"{lib} {part} returns shape {r.shape}"
    for b in range(len(A)):
        for i in range(n):
            for k in range(n):
                f = [A[b, i, j] + B[b, j, k] for j in range(n)]; sc = 1 + max(abs(float(v)) for v in f)
                c = [vertex(f, j) for j in mins(f, Fraction(1, 10 ** 9) * Fraction(sc))] if it else [min(f)]
                if not any(abs(r[b, i, k] - float(w)) <= 1e-7 * (1 + abs(float(w))) for w in c): return True, f"{lib} {part} gives {r[b, i, k]} instead of {float(c[0])} for the sums {[float(v) for v in f]}"
    return False, "agrees"
@chk.family("pass")
def replay_pass(case):
    V, l, lib, part, blocks = Q(case["V"]), Q(case["LT"]), case["lib"], case["part"], int(case["blocks"]); n = len(l); mp = case.get("mp")
    try: r = call(lib, part, dict(V=V, LT=l, blocks=blocks, n=n, mp=None if mp is None else int(mp)), True)
    except Exception as ex: return True, f"{lib} {part} with {blocks} blocks raises {type(ex).__name__}: {str(ex)[-300:]}"
    if r.shape != (blocks + 1, n): return True, f"{lib} {part} returns shape {r.shape} for {blocks} blocks"
    T = np.stack([l] * n, axis=1)
    for k in range(blocks + 1):
        els = [V] * (blocks - k) + [T]
        if part.startswith("seq"):
            c = T
            for _ in range(blocks - k): c = comb(V, c, True)
            cands = [c[:, 0]]
        else: cands = [b[:, 0] for b in brackets(els, lambda x, y: comb(x, y, True))]
        e = near(r[k], cands, f"{lib} {part} value function {k} of {blocks}")
        if e: return True, e + f" for block values {np.asarray(V, dtype=float).tolist()} and terminal values {np.asarray(l, dtype=float).tolist()}"
    return False, "agrees"
@chk.family("scan")
def replay_scan(case):
    E, part = Q(case["E"]), case["part"]; it = "interp" in part
    try: r = call("np", part, dict(E=E, n=E.shape[1]), True)
    except Exception as ex: return True, f"{part} raises {type(ex).__name__}: {str(ex)[-300:]}"
    if r.shape != E.shape: return True, f"{part} returns shape {r.shape}"
    for k in range(len(E)):
        e = near(r[k], brackets(list(E[k:]), lambda x, y: comb(x, y, it)), f"{part} element {k}")
        if e: return True, e
    return False, "agrees"

# ------------------------------------------------------------------ symbolic side
def RV(nm, *s):
    o = np.empty(s, dtype=object)
    for p in np.ndindex(*s): o[p] = RealT.var(nm + "_".join(map(str, p)))
    return o
class Env0(dict): pass
def go(t, f, case, family, asm=()):
    """yields (path condition, result); exceptions of the code reported"""
    zsym.reset()
    for pc, r, sc in zsym.explore(f, assume=list(asm)):
        t.paths += 1
        if isinstance(r, zsym.Raised):
            rr, mod = t.solve(list(asm) + pc)
            if rr == z3.sat: t.n_obl += 1; t.report("raised " + repr(r), case(mod), family)
            continue
        for c, txt in sc: t.prove(txt, c, list(asm) + pc, case, family=family)
        yield list(asm) + pc, r
def zmin(fs): 
    m = fs[0]
    for g in fs[1:]: m = z3.If(g < m, g, m)
    return m
def parab(r, fs):
    """r is the vertex of the parabola through a minimising point and its neighbours (division multiplied out)"""
    n = len(fs); cl = []
    for j in range(n):
        m, p = nb(j, n); d = fs[p] + fs[m] - 2 * fs[j]
        cl.append(z3.And(*[fs[j] <= g for g in fs], z3.If(d == 0, r == fs[j], 8 * d * (fs[j] - r) == (fs[p] - fs[m]) * (fs[p] - fs[m]))))
    return z3.Or(*cl)
def pref(vs):
    e = [zval(v) for v in vs]; return [z3.And(*[z3.And(x >= -20, x <= 20, x == z3.ToReal(z3.ToInt(x * 4)) / 4) for x in e])]
def shape_bad(t, r, s, A, case, family):
    if r.shape == s: return False
    rr, mod = t.solve(A); t.n_obl += 1; t.report(f"shape {r.shape}, expected {s}", case(mod), family); return True

def single(t, lib, part, n, N=1, free=None):
    A, B = RV("a", N, n, n), RV("b", N, n, n); it = "interp" in part
    if free is not None:   # only one row free, the rest concrete
        rng = random.Random(free)
        for a in (A, B):
            for p in np.ndindex(*a.shape):
                if not (a is A and p[1] == 0): a[p] = Fraction(rng.randint(-12, 12), 4)
    case = lambda mod: dict(A=mval(mod, A), B=mval(mod, B), lib=lib, part=part)
    pr = pref([v for v in list(A.reshape(-1)) + list(B.reshape(-1)) if zsym.is_sym(v)])
    for asm, r in go(t, lambda: call(lib, part, dict(A=A, B=B, n=n), False), case, "combine"):
        if shape_bad(t, r, (N, n, n), asm, case, "combine"): continue
        for b in range(N):
            for i in range(n):
                for k in range(n):
                    fs = [zval(A[b, i, j] + B[b, j, k]) for j in range(n)]
                    t.prove(f"{part}[{b},{i},{k}]", parab(zval(r[b, i, k]), fs) if it else zval(r[b, i, k]) == zmin(fs), asm, case, family="combine", prefer=pr)
def assoc(t, lib, part, n):
    A, B, C = RV("a", 1, n, n), RV("b", 1, n, n), RV("c", 1, n, n); case0 = lambda X, Y: (lambda mod: dict(A=mval(mod, X), B=mval(mod, Y), lib=lib, part=part))
    f = lambda x, y: call(lib, part, dict(A=x, B=y, n=n), False)
    for asm, (l, r) in go(t, lambda: (f(f(A, B), C), f(A, f(B, C))), case0(A, B), "combine"):
        for i in range(n):
            for k in range(n):
                w = zmin([zval(A[0, i, j] + B[0, j, h] + C[0, h, k]) for j in range(n) for h in range(n)])
                t.prove(f"associative[{i},{k}]", z3.And(zval(l[0, i, k]) == w, zval(r[0, i, k]) == w), asm, case0(A, B), family="combine")
def scan(t, part, n, N):
    E = RV("e", N, n, n); case = lambda mod: dict(E=mval(mod, E), part=part); pr = pref(E.reshape(-1))
    for asm, r in go(t, lambda: call("np", part, dict(E=E, n=n), False), case, "scan"):
        if shape_bad(t, r, E.shape, asm, case, "scan"): continue
        acc = [[zval(v) for v in q] for q in E[N - 1]]
        for k in range(N - 1, -1, -1):
            if k < N - 1: acc = [[zmin([zval(E[k, i, j]) + acc[j][h] for j in range(n)]) for h in range(n)] for i in range(n)]
            t.prove(f"element {k}", z3.And(*[zval(r[k, i, h]) == acc[i][h] for i in range(n) for h in range(n)]), asm, case, family="scan", prefer=pr)
def passes(t, lib, part, n, blocks, mp=None):
    V, l = RV("v", n, n), RV("l", n); case = lambda mod: dict(V=mval(mod, V), LT=mval(mod, l), lib=lib, part=part, blocks=blocks, mp=mp); pr = pref(list(V.reshape(-1)) + list(l))
    for asm, r in go(t, lambda: call(lib, part, dict(V=V, LT=l, blocks=blocks, n=n, mp=mp), False), case, "pass"):
        if shape_bad(t, r, (blocks + 1, n), asm, case, "pass"): continue
        t.prove("terminal value", z3.And(*[zval(r[blocks, i]) == zval(l[i]) for i in range(n)]), asm, case, family="pass", prefer=pr)
        if n == 2:      # the mirrored neighbours coincide: exact minimisation
            acc = [zval(v) for v in l]
            for k in range(blocks - 1, -1, -1):
                acc = [zmin([zval(V[i, j]) + acc[j] for j in range(n)]) for i in range(n)]
                t.prove(f"value function {k}", z3.And(*[zval(r[k, i]) == acc[i] for i in range(n)]), asm, case, family="pass", prefer=pr)
        else:
            for k in range(blocks):
                for i in range(n): t.prove(f"value function {k}[{i}]", parab(zval(r[k, i]), [zval(V[i, j] + (l[j] if k == blocks - 1 else r[k + 1, j])) for j in range(n)]), asm, case, family="pass", prefer=pr)
def pass3(t, lib, part, blocks, free, seed, rad):
    """three grid points, free values around concrete ones, path by path"""
    symnp.DOMAIN["rat"] = True
    rng = random.Random(seed); n = 3; V = np.empty((n, n), dtype=object); l = np.empty(n, dtype=object)
    for p in np.ndindex(n, n): V[p] = Fraction(rng.randint(-12, 12), 4)
    for p in range(n): l[p] = Fraction(rng.randint(-12, 12), 4)
    base = {}
    for nm in free:
        a = V if nm[0] == "v" else l; p = tuple(int(c) for c in nm[1:]); base[nm] = a[p]; a[p] = var(nm)
    for nm in free: v = var(nm); poly.DOMAIN.append(z3.And((v > base[nm] - rad).e, (v < base[nm] + rad).e))
    t.paths += 1; kw = dict(case=lambda env: dict(V=mval(env, V), LT=mval(env, l), lib=lib, part=part, blocks=blocks), base=base, family="pass")
    try: r = call(lib, part, dict(V=V, LT=l, blocks=blocks, n=n), False)
    except (ValueError, TypeError, IndexError, AttributeError) as ex:
        t.n_obl += 1; return t.report(f"raises {type(ex).__name__}: {ex}", kw["case"](Env(base)), "pass")
    if r.shape != (blocks + 1, n): t.n_obl += 1; return t.report(f"shape {r.shape}", kw["case"](Env(base)), "pass")
    T = np.stack([l] * n, axis=1); acc = T
    for k in range(blocks, -1, -1):
        if part.startswith("seq"):
            if k < blocks: acc = combr(V, acc)
            t.equals(f"value function {k}", r[k], acc[:, 0], **kw)
        else:
            c = brackets([V] * (blocks - k) + [T], combr); rl = poly.Rat.lift
            ok = [q for q in c if all(not (rl(r[k, i]) - rl(q[i, 0])).num for i in range(n))]
            t.equals(f"value function {k}", r[k], (ok or c)[0][:, 0], **kw)

def validate(t):
    for s in range(6):
        rng = random.Random(t.seed * 100 + s); q = lambda *sh: np.array([Fraction(rng.randint(-20, 20), 4) for _ in range(int(np.prod(sh)))], dtype=object).reshape(sh); n = rng.randint(2, 5)
        for lib in ("np", "tf"):
            for part in COMB[lib]: t.validated += 1; c = dict(A=q(1, n, n), B=q(1, n, n), lib=lib, part=part); b, m = replay(dict(c)); t.report("concrete validation", c) if b else None
            for part in PASS[lib]: t.validated += 1; c = dict(V=q(n, n), LT=q(n), lib=lib, part=part, blocks=rng.randint(1, 4)); b, m = replay_pass(dict(c)); t.report("concrete validation", c, "pass") if b else None
        for part in SCAN: t.validated += 1; c = dict(E=q(rng.randint(1, 4), n, n), part=part); b, m = replay_scan(dict(c)); t.report("concrete validation", c, "scan") if b else None

COMB = dict(np=["combine_V", "combine_V2", "combine_V_interp", "combine_V_interp2"], tf=["combine_V", "combine_V2", "combine_V_rev", "combine_V_interp", "combine_V_interp_rev"])
PASS = dict(np=["seqBackwardPass_assoc", "parBackwardPass"], tf=["seq_bw_pass_assoc", "par_bw_pass"])
SCAN = ["par_backward_pass_scan", "par_backward_pass_scan_interp"]
if __name__ == "__main__":
    big = chk.tier == "thorough"
    for lib in ("np", "tf"):
        for part in COMB[lib]:
            if part == "combine_V_interp2":
                chk.task(single, name=f"np {part} n=2", lib=lib, part=part, n=2)
                for f in (1, 2, 3): chk.task(single, name=f"np {part} n=3 one row {f}", lib=lib, part=part, n=3, free=f)
                continue
            for n in ((2, 3, 4, 5) if "interp" in part else (1, 2, 3, 4, 5)) + ((6, 8) if big else ()): chk.task(single, name=f"{lib} {part} n={n}", lib=lib, part=part, n=n)
            if lib == "tf":
                for N in (2, 3): chk.task(single, name=f"tf {part} n=3 batch {N}", lib=lib, part=part, n=3, N=N)
        for part in ("combine_V", "combine_V2"):
            for n in (2, 3): chk.task(assoc, name=f"{lib} {part} associative n={n}", lib=lib, part=part, n=n)
        for part in PASS[lib]:
            for blocks in (1, 2, 3, 4, 5) + ((6, 7) if big else ()):
                for mp in ([None] + ([blocks + 1, blocks + 2, 16] if part == "par_bw_pass" else [])): chk.task(passes, name=f"{lib} {part} n=2 blocks={blocks} {mp or ''}", lib=lib, part=part, n=2, blocks=blocks, mp=mp)
            for n in (3, 4): chk.task(passes, name=f"{lib} {part} n={n} blocks=1", lib=lib, part=part, n=n, blocks=1)
            for blocks, free, sd, rad in ((2, ("l0",), 1, 4), (2, ("l1",), 2, 4), (2, ("v01",), 3, 2), (2, ("l2", "l0"), 4, 1), (3, ("l1",), 5, 2), (3, ("v12",), 6, Fraction(1, 4))) + (((2, ("l2", "l0"), 4, 5), (3, ("l1",), 5, 10), (4, ("l0",), 7, 2)) if big else ()):
                chk.task(pass3, name=f"{lib} {part} n=3 blocks={blocks} free {free} within {rad}", lib=lib, part=part, blocks=blocks, free=free, seed=sd, rad=rad)
    for n, N in ((2, 1), (2, 2), (2, 3), (2, 4), (2, 5), (2, 6), (3, 2), (3, 3), (3, 4)): chk.task(scan, name=f"scan n={n} {N} elements", part=SCAN[0], n=n, N=N)
    for N in (1, 2, 3) + ((4,) if big else ()): chk.task(scan, name=f"interpolated scan n=2 {N} elements", part=SCAN[1], n=2, N=N)
    chk.task(validate, name="translation validation")
    chk.main()
