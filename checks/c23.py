"""C23: Grid finite-difference passes implement the stated schemes."""
import importlib, random
from fractions import Fraction
import numpy as np, z3
from vlib.run import Check, mval
from vlib import zsym, symnp, jaxshim
from vlib.zsym import RealT, FInt, zval
from vlib.symnp import arr, unwrap, asobj
from checks.c22 import RV, go, zmin, pref, shape_bad, Q

chk = Check("C23",
    bounds_text="every model (drift and running cost as arbitrary tables over the grids), terminal value function and horizon for one time step on 2 to 5 states and 1 to 3 controls; every running cost and terminal value function with concrete drifts of all signs for up to 4 time steps in up to 3 blocks; "
                "every drift and horizon with concrete costs for 2 time steps (one block of 2 or 2 blocks of 1) and, every drift, for 2 blocks of 2 steps with one control or one block of 2 steps with two, on 2 states; grid spacings 1/2, 1, 2 and 3, descending grids excluded",
    outside="larger grids and step counts, non-uniform grids, rounding",
    explanation="pass functions executed on z3 reals with the model as a table over the grid points (JAX on a symbolic array layer, TensorFlow graphs traced from the source); every returned value function asserted equal to the explicit scheme with one-sided differences at the ends, central or upwind differences inside and the minimum over the control grid, sampled at the block boundaries")
chk.assumptions = ["floating point modelled as exact real arithmetic", "TensorFlow kernels follow their documented semantics", "numpy/jax min, argmin, sign and indexing modelled by the symbolic layer"]
def _imp():
    global tfsym, tf
    from vlib import tfsym
    import tensorflow as tf
    tfsym.module("hjb_grid_1d_tf")
chk.setup.append(_imp)

# ------------------------------------------------------------------ running the code
GX = lambda n, x0, h: [Fraction(x0) + Fraction(h) * i for i in range(n)]
def call(lib, scheme, a, real):
    """a: f, L tables [u, x], LT [x], T, blocks, steps, x0, h (grid start and spacing)"""
    nu, nx = a["f"].shape; x0, h = Fraction(a["x0"]), Fraction(a["h"]); B, S = a["blocks"], a["steps"]
    if lib == "np":
        if real:
            import jax; jax.config.update("jax_enable_x64", True); import jax.numpy as jnp
            m = importlib.import_module("parallel_control.hjb_grid_1d_np"); fl = lambda v: jnp.asarray(np.asarray(v, dtype=float))
            gx, gu, T = fl(GX(nx, x0, h)), fl(np.arange(nu)), float(a["T"]); ix = lambda x: jnp.rint((x - float(x0)) / float(h)).astype(int)
            f, L = [(lambda tb: lambda x, u: tb[jnp.rint(u).astype(int), ix(x)])(fl(a[k])) for k in "fL"]; LT = lambda x: fl(a["LT"])[ix(x)]
            out = lambda r: np.asarray(r, dtype=float)
        else:
            jaxshim.install(); m = symnp.load("hjb_grid_1d_np"); gx, gu, T = arr(np.array(GX(nx, x0, h), dtype=object)), arr(np.arange(nu).astype(object)), a["T"]
            ix = lambda x: int((Fraction(x) - x0) / h)
            def look(tb, x, u):
                i = ix(x); return zsym.select_fint(u, lambda k: tb[k, i]) if isinstance(u, FInt) else tb[int(u), i]
            def fn(tb):
                def g(x, u):
                    X, U = np.broadcast_arrays(unwrap(asobj(x)), unwrap(asobj(u))); o = np.empty(X.shape, dtype=object)
                    for p in np.ndindex(*X.shape): o[p] = look(tb, X[p], U[p])
                    return arr(o)
                return g
            f, L = fn(a["f"]), fn(a["L"])
            def LT(x):
                v = unwrap(asobj(x)); o = np.empty(v.shape, dtype=object)
                for p in np.ndindex(*v.shape): o[p] = a["LT"][ix(v[p])]
                return arr(o) if v.ndim else o.item()
            out = lambda r: unwrap(asobj(r))
        hj = m.HJB_Grid_1d(f, L, LT, T, B, S, gx)
        return np.stack([out(v) for v in getattr(hj, "seqBackwardPass_" + scheme)(gu)])
    m = importlib.import_module("parallel_control.hjb_grid_1d_tf") if real else tfsym.module("hjb_grid_1d_tf")
    def g(ft, Lt, lt, T):
        ix = lambda x: tf.cast(tf.round((x - float(x0)) / float(h)), tf.int32)
        fn = lambda tb: (lambda x, u: tf.gather_nd(tb, tf.stack([tf.cast(tf.round(u), tf.int32), ix(x)], -1)))
        return getattr(m, "seq_bw_pass_" + scheme)(fn(ft), fn(Lt), lambda x: tf.gather(lt, ix(x)), T, B, S, tf.constant([float(v) for v in GX(nx, x0, h)], tf.float64), tf.constant(np.arange(nu) * 1.0, tf.float64))
    args = [a["f"], a["L"], a["LT"], np.array(a["T"], dtype=object)]
    if real: return np.asarray(g(*[tf.constant(np.asarray(v, dtype=float), tf.float64) for v in args]))
    return unwrap(asobj(tfsym.run(g, *[arr(np.asarray(v, dtype=object).copy(), 'f') for v in args])))

def step(V, f, L, dt, dx, scheme, mn, cond):
    nu, nx = f.shape; out = []
    for i in range(nx):
        fw = (V[i + 1] - V[i]) / dx if i < nx - 1 else (V[i] - V[i - 1]) / dx
        bw = (V[i] - V[i - 1]) / dx if i else (V[1] - V[0]) / dx
        ct = fw if i == 0 else bw if i == nx - 1 else (V[i + 1] - V[i - 1]) / (2 * dx)
        out.append(V[i] + dt * mn([L[u, i] + f[u, i] * ct if scheme == "symfd" else L[u, i] + cond(f[u, i], fw, bw) for u in range(nu)]))
    return out
def oracle(a, scheme, mn, cond):
    V = list(a["LT"]); res = [V]; dt = a["T"] / a["blocks"] / a["steps"]
    for b in range(a["blocks"]):
        for s in range(a["steps"]): V = step(V, a["f"], a["L"], dt, Fraction(a["h"]), scheme, mn, cond)
        res.append(V)
    return res[::-1]
cnum = lambda f, p, q: f * (p if f > 0 else q)
@chk.family("fd")
def replay(case):
    a = dict(f=Q(case["f"]), L=Q(case["L"]), LT=Q(case["LT"]), T=Fraction(case["T"]), blocks=int(case["blocks"]), steps=int(case["steps"]), x0=case["x0"], h=case["h"]); lib, sch = case["lib"], case["scheme"]
    try: r = call(lib, sch, a, True)
    except Exception as ex: return True, f"{lib} {sch} raises {type(ex).__name__}: {str(ex)[-300:]}"
    w = np.asarray(oracle(a, sch, min, cnum), dtype=float)
    if r.shape != w.shape: return True, f"{lib} {sch} returns shape {r.shape} instead of {w.shape}"
    if not np.all(np.abs(r - w) <= 1e-7 * (1 + np.abs(w).max())): return True, f"{lib} {sch} pass gives {r.tolist()} instead of {w.tolist()}"
    return False, "agrees"

def fd(t, lib, scheme, nx, nu, blocks, steps, free, h, seed=1):
    rng = random.Random(seed); num = lambda *s: np.array([Fraction(rng.choice([-6, -4, -3, -1, 0, 2, 3, 5]), 4) for _ in range(int(np.prod(s)))], dtype=object).reshape(s)
    a = dict(f=RV("f", nu, nx) if "f" in free else num(nu, nx), L=RV("L", nu, nx) if "L" in free else num(nu, nx), LT=RV("V", nx) if "V" in free else num(nx), T=RealT.var("T") if "T" in free else Fraction(3, 4),
             blocks=blocks, steps=steps, x0=-1, h=h)
    case = lambda mod: dict(f=mval(mod, a["f"]), L=mval(mod, a["L"]), LT=mval(mod, a["LT"]), T=mval(mod, a["T"]), blocks=blocks, steps=steps, x0=-1, h=h, lib=lib, scheme=scheme)
    sy = [v for v in list(a["f"].reshape(-1)) + list(a["L"].reshape(-1)) + list(a["LT"]) + [a["T"]] if zsym.is_sym(v)]; pr = pref(sy)
    zm = lambda l: RealT(zmin([zval(v) for v in l])); cz = lambda f, p, q: zsym.ite(f > 0, f * p, f * q)
    w = oracle(a, scheme, zm, cz)
    def chained(r, k, i):
        """one step from the returned value function of the block before, which is then arbitrary"""
        V = [RealT(z3.Real(f"W{j}")) for j in range(nx)]; sub = [(zval(r[k + 1, j]), V[j].e) for j in range(nx)]; e = z3.substitute(zval(r[k, i]), *[q for q in sub if not z3.is_const(q[0])])
        if all(z3.is_const(q[0]) for q in sub): V = [RealT(q[0]) for q in sub]
        return e == zval(step(V, a["f"], a["L"], a["T"] / blocks, Fraction(h), scheme, zm, cz)[i])
    def full(r, k, i): return zval(r[k, i]) == zval(w[k][i])
    def holds(asm, c):
        rr, _ = t.solve(list(asm) + [z3.Not(c)], 10000)
        if rr == z3.unsat: t.n_obl += 1; t.n_dis += 1
        return rr == z3.unsat
    for asm, r in go(t, lambda: call(lib, scheme, a, False), case, "fd"):
        if shape_bad(t, r, (blocks + 1, nx), asm, case, "fd"): continue
        for k in range(blocks + 1):
            for i in range(nx):
                if steps == 1 and k < blocks - 1 and holds(asm, chained(r, k, i)): continue
                t.prove(f"value {k}[{i}]", zval(r[k, i]) == zval(w[k][i]), asm, case, family="fd", prefer=pr)

def validate(t):
    for s in range(6):
        rng = random.Random(t.seed * 100 + s); q = lambda *sh: np.array([Fraction(rng.randint(-20, 20), 8) for _ in range(int(np.prod(sh)))], dtype=object).reshape(sh); nx, nu = rng.randint(2, 6), rng.randint(1, 4)
        for lib in ("np", "tf"):
            for sch in ("symfd", "upwind"):
                t.validated += 1; c = dict(f=q(nu, nx), L=q(nu, nx), LT=q(nx), T=Fraction(rng.randint(1, 9), 8), blocks=rng.randint(1, 3), steps=rng.randint(1, 4), x0=rng.choice([-2, 0]), h=Fraction(rng.choice([1, 2, 4]), 4), lib=lib, scheme=sch); b, m = replay(dict(c))
                if b: t.report("concrete validation", c)
if __name__ == "__main__":
    big = chk.tier == "thorough"
    for lib in ("np", "tf"):
        for sch in ("symfd", "upwind"):
            for nx, nu, h in ((2, 2, 1), (3, 2, Fraction(1, 2)), (4, 2, 2), (3, 3, 1), (5, 1, 3)) + (((6, 3, 1),) if big else ()): chk.task(fd, name=f"{lib} {sch} nx={nx} nu={nu} one step", lib=lib, scheme=sch, nx=nx, nu=nu, blocks=1, steps=1, free="fLVT", h=h)
            for nx, nu, b, s, h in ((3, 2, 1, 2, 1), (3, 2, 2, 1, Fraction(1, 2)), (3, 2, 2, 2, 2), (4, 2, 3, 1, 1), (2, 2, 3, 1, 1), (2, 2, 2, 3, 1)) + (((4, 3, 2, 2, 1), (3, 2, 3, 2, 1)) if big else ()):
                for fr, sd in (("LV", 1), ("V", 2)) if s < 2 or b < 2 or nx < 3 or big else (("V", 2),): chk.task(fd, name=f"{lib} {sch} nx={nx} nu={nu} {b} blocks {s} steps {fr}", lib=lib, scheme=sch, nx=nx, nu=nu, blocks=b, steps=s, free=fr, h=h, seed=sd)
            for nx, nu, b, s, fr in ((3, 2, 1, 2, "fT"), (3, 2, 2, 1, "fT"), (2, 1, 2, 2, "f"), (2, 2, 1, 2, "f")): chk.task(fd, name=f"{lib} {sch} nx={nx} nu={nu} {b} blocks {s} steps {fr}", lib=lib, scheme=sch, nx=nx, nu=nu, blocks=b, steps=s, free=fr, h=2)
    chk.task(validate, name="translation validation")
    chk.main()
