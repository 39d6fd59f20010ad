"""C11: LQR solvers agree with the Riccati recursion."""
import importlib, random
from fractions import Fraction
import numpy as np
from vlib.run import Check, Env, mval
from vlib import symnp, poly
from vlib.symnp import arr, osolve
from checks.lqt_common import var, mulo, mm, eye, zeros, frm, spd, fl, off, cmp_lists

chk = Check("C11",
    bounds_text="exact rational-function identities over all values of the symbolic data: everything symbolic for state and control dimension 1 (horizons to 4, 3 doublings) and one step of dimension 2; one matrix at a time symbolic for dimension 2 and 3, horizons to 5, 2 or 3 doublings; all remaining data concrete generic rationals",
    outside="larger sizes, horizons and iteration numbers, the SciPy Riccati equation solver called by lqrDare, singular control costs, rounding",
    explanation="NumPy source executed on exact rational functions; gains, value matrices and trajectories asserted equal to exact dynamic programming on the documented cost, and the excess cost of any control sequence a sum of squares")
chk.assumptions = ["floating point modelled as exact rational arithmetic", "Cholesky and LU factorisations followed by solves modelled as exact solutions"]
GS = ("F", "L", "X", "U", "XT")

# ---------------------------------------------------------------- oracle
def step(g, S):
    """one dynamic programming step on the stacked quadratic form over (x, u)"""
    F, L, X, U = g["F"], g["L"], g["X"], g["U"]; n, m = L.shape
    G = np.concatenate([F, L], axis=1)
    Q = np.block([[X, zeros(n, m)], [zeros(m, n), U]]) + mm(G.T, S, G)
    K = osolve(Q[n:, n:], Q[n:, :n])
    return K, Q[:n, :n] - mm(Q[:n, n:], K), Q[n:, n:]
def ric(g, S, k):
    Ks, Ss, Bs = [], [S], []
    for _ in range(k):
        K, S, B = step(g, S); Ks.insert(0, K); Ss.insert(0, S); Bs.insert(0, B)
    return Ks, Ss, Bs
def roll(g, Ks, x):
    us, xs = [], [x]
    for K in Ks:
        u = -mulo(K, x); x = mulo(g["F"], x) + mulo(g["L"], u); us.append(u); xs.append(x)
    return us, xs
def cost(g, us, xs):
    h = Fraction(1, 2); J = h * mulo(mulo(xs[-1], g["XT"]), xs[-1])
    for u, x in zip(us, xs): J = J + h * mulo(mulo(x, g["X"]), x) + h * mulo(mulo(u, g["U"]), u)
    return J

# ---------------------------------------------------------------- concrete side
def A_(v): return np.array([A_(i) if isinstance(i, list) else Fraction(i) for i in v], dtype=object) if isinstance(v, list) else Fraction(v)
@chk.family("lqr")
def replay(case):
    m = importlib.import_module("parallel_control.lqt_np")
    g = {k: A_(case[k]) for k in GS}; x0 = A_(case["x0"]); T = int(case["T"]); part = case["part"]
    try:
        q = m.LQR(*[fl(g[k]) for k in GS]); Ks, Ss, _ = ric(g, g["XT"], T); us, xs = roll(g, Ks, x0)
        e = None
        for nm, f in (("seqBackwardPass", q.seqBackwardPass), ("parBackwardPass", q.parBackwardPass)):
            if part in (nm, "all"):
                a, b = f(T); e = e or cmp_lists(nm + " gain", a, Ks) or cmp_lists(nm + " value matrix", b, Ss)
        for nm, f in (("seqForwardPass", q.seqForwardPass), ("parForwardPass", q.parForwardPass)):
            if part in (nm, "all"):
                a, b = f(fl(x0), [fl(k) for k in Ks]); e = e or cmp_lists(nm + " control", a, us) or cmp_lists(nm + " state", b, xs)
        if part in ("lqrIter", "all") and T:
            K, S = q.lqrIter(T); k, s, _ = ric(g, g["X"], T); e = e or cmp_lists("lqrIter", [K, S], [k[0], s[0]])
        if part in ("lqrDouble", "all"):
            n = min(T, 4); K, S = q.lqrDouble(n); s = ric(g, g["X"], 2 ** n - 1)[1][0]; e = e or cmp_lists("lqrDouble", [K, S], [step(g, s)[0], s])
    except Exception as ex:
        return True, f"{part} raises {type(ex).__name__}: {ex}"
    return (True, e) if e else (False, "agrees")

# ---------------------------------------------------------------- symbolic side
def inst(n, m, sym, seed):
    rng = random.Random(seed * 17 + n * 5 + m); base = {}
    v = {"F": frm(rng, n, n) + eye(n) * Fraction(1, 2), "L": frm(rng, n, m) + eye(max(n, m))[:n, :m], "X": spd(rng, n), "U": spd(rng, m), "XT": spd(rng, n, 2), "x0": frm(rng, n)}
    def mk(k):
        o = np.empty(v[k].shape, dtype=object)
        for pos in np.ndindex(*o.shape):
            q = tuple(sorted(pos)) if k in ("X", "U", "XT") else pos
            nm = k + "_" + "_".join(map(str, q)); base[nm] = v[k][q]; o[pos] = var(nm)
        return o
    return {k: mk(k) if k in sym else v[k] for k in v}, base
def A(a): return arr(np.array(a, copy=True))
def run(t, part, n, m, T, sym, seed=1):
    g, base = inst(n, m, sym + ("x0",), seed); t.paths += 1
    kw = dict(case=lambda env: dict({k: mval(env, g[k]) for k in g}, T=T, part=part), base=base)
    mod = symnp.load("lqt_np"); q = mod.LQR(*[A(g[k]) for k in GS])
    Ks, Ss, Bs = ric(g, g["XT"], T)
    def go(f):
        try: return f()
        except (np.linalg.LinAlgError, ValueError, IndexError, TypeError, ZeroDivisionError, AttributeError) as ex:
            t.n_obl += 1; t.report(f"raises {type(ex).__name__}: {ex}", kw["case"](Env({x: Fraction(base.get(x, 0)) for x in poly.VARS})))
    def eqs(nm, got, want):
        t.equal(nm + " count", len(got), len(want), **kw)
        for k in range(len(want)): t.equals(f"{nm} {k}", got[k], want[k], **kw)
    if "Backward" in part:
        r = go(lambda: getattr(q, part)(T))
        if r: eqs("gain", r[0], Ks); eqs("S", r[1], Ss)
    elif "Forward" in part:
        us, xs = roll(g, Ks, g["x0"])
        r = go(lambda: getattr(q, part)(A(g["x0"]), [A(k) for k in Ks]))
        if r: eqs("u", r[0], us); eqs("x", r[1], xs)
    elif part == "lqrIter":
        k, s, _ = ric(g, g["X"], T); r = go(lambda: q.lqrIter(T))
        if r: t.equals("gain", r[0], k[0], **kw); t.equals("S", r[1], s[0], **kw)
    elif part == "lqrDouble":
        s = ric(g, g["X"], 2 ** T - 1)[1][0]; r = go(lambda: q.lqrDouble(T))
        if r: t.equals("gain", r[0], step(g, s)[0], **kw); t.equals("S", r[1], s, **kw)
    elif part == "all":   # excess cost of an arbitrary control sequence over the returned one
        def f():
            K, S = q.seqBackwardPass(T); us, xs = q.seqForwardPass(A(g["x0"]), K); return [np.asarray(symnp.unwrap(a), dtype=object) for a in K], [np.asarray(symnp.unwrap(a), dtype=object) for a in us], [np.asarray(symnp.unwrap(a), dtype=object) for a in xs]
        r = go(f)
        if r:
            K, us, xs = r; x = g["x0"]; X = [x]; V = []; ex = 0
            for k in range(T):
                u = np.array([var(f"w{k}_{i}") for i in range(m)] + [None], dtype=object)[:m]
                dl = u + mulo(K[k], x); ex = ex + Fraction(1, 2) * mulo(mulo(dl, Bs[k]), dl)
                x = mulo(g["F"], x) + mulo(g["L"], u); X.append(x); V.append(u)
            t.equal("excess cost", cost(g, V, X) - cost(g, us, xs), ex, **kw)

def validate(t):
    for s in range(12):
        rng = random.Random(t.seed * 50 + s); n, m, T = rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 9)
        g, _ = inst(n, m, (), s + t.seed); case = dict({k: mval(Env(), g[k]) for k in g}, T=T, part="all"); t.validated += 1
        bad, msg = replay(dict(case))
        if bad: t.report("concrete validation", case)

if __name__ == "__main__":
    big = chk.tier == "thorough"
    def add(part, n, m, T, sym, seed=1): chk.tasks.append((f"{part} n={n} m={m} T={T} symbolic {' '.join(sym)}", run, dict(part=part, n=n, m=m, T=T, sym=sym, seed=seed)))
    for part in ("seqBackwardPass", "parBackwardPass", "seqForwardPass", "parForwardPass", "lqrIter", "lqrDouble", "all"):
        D = part == "lqrDouble"
        Ts = (0, 1, 2, 3) if D else (1, 2, 3) if part == "all" else (1, 2, 3, 4)
        for T in Ts:
            add(part, 1, 1, T, GS)
        if not D:
            add(part, 2, 1, 1, GS); add(part, 1, 2, 1, GS)
            if part != "all": add(part, 2, 2, 1, GS)
        for g in GS:
            if g == "XT" and part in ("lqrIter", "lqrDouble"): continue
            for n, m, T in ((2, 1, 3), (2, 2, 2), (3, 2, 2)) if not D else ((2, 1, 2), (2, 2, 1), (3, 2, 1)): add(part, n, m, T, (g,), 2)
            if big:
                for n, m, T in ((2, 1, 5), (3, 1, 4), (4, 2, 3)) if not D else ((2, 1, 3), (3, 1, 2)): add(part, n, m, T, (g,), 2)
        for T in (5, 6, 7, 8) if not D else (3, 4): add(part, 3, 2, T, (), 3)
    chk.task(validate, name="translation validation")
    chk.main()
