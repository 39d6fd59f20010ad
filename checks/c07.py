"""C07: Sequential, batch and transformed LQT are optimal (NumPy)."""
import importlib
from fractions import Fraction
import numpy as np
from vlib.run import Check, Env, ratl, mval
from vlib import symnp, poly
from vlib.symnp import arr
from checks.lqt_common import *

chk = Check("C07",
    bounds_text="exact rational-function identities over all values of the symbolic data wherever the factorisations exist; fully symbolic problems up to the sizes in the configurations, larger ones with symbolic initial state, offsets, references and control offsets "
                "and generic constant matrices, and with one matrix group of one step fully symbolic at a time",
    outside="larger sizes and horizons, running outputs whose dimension changes over the steps, singular control costs, rounding",
    explanation="NumPy source executed on exact rational functions; gains, values, trajectories and cost asserted equal to exact dynamic programming, and the excess cost of every control sequence over the returned one asserted equal to the sum of squares in the control-cost metric")
chk.assumptions = ["floating point modelled as exact rational arithmetic", "Cholesky and LU factorisations followed by solves modelled as exact solutions"]

@chk.family("lqt")
def replay(case):
    m = importlib.import_module("parallel_control.lqt_np")
    d, T, n, mu, x0 = cdict(case)
    V, K, D, B = dp(d, T, n, mu); S, v = split(V, n); us, xs = rollout(d, T, K, D, x0)
    part = case.get("part", "all")
    try:
        q = mklqt(m, d, T); X0 = fl(x0)
        rb = q.seqBackwardPass()
        if part in ("all", "bwd", "opt"):
            for nm, g, w in zip(("gain", "offset", "value matrix", "value vector"), rb, (K, D, S, v)):
                e = cmp_lists("sequential backward pass " + nm, g, w)
                if e: return True, e
        if part in ("all", "fwd", "opt"):
            for a, b, nm in zip(q.seqForwardPass(X0.copy(), [fl(k) for k in K], [fl(k) for k in D]), (us, xs), ("control", "state")):
                e = cmp_lists("forward pass " + nm, a, b)
                if e: return True, e
        if part in ("all", "sim", "opt"):
            uu = [fl(u) for u in case["u"]] if "u" in case else [fl(u) for u in us]
            x = X0; w = [x]
            for k in range(T): x = fl(d["F", k]) @ x + fl(d["c", k]) + fl(d["L", k]) @ uu[k]; w.append(x)
            e = cmp_lists("simulation state", q.seqSimulation(X0.copy(), uu), w)
            if e: return True, e
        if part in ("all", "cost", "opt"):
            uu = [np.array([Fraction(i) for i in u], dtype=object) for u in case["u"]] if "u" in case else us
            xx = [np.array([Fraction(i) for i in u], dtype=object) for u in case["xx"]] if "xx" in case else xs
            e = off(q.cost([fl(u) for u in uu], [fl(x) for x in xx]), totalcost(d, T, uu, xx))
            if e: return True, "cost: " + e
        if part in ("all", "batch"):
            for a, b, nm in zip(q.batchSolution(X0.copy()), (us, xs), ("control", "state")):
                e = cmp_lists("batch solution " + nm, a, b)
                if e: return True, e
        if part == "transformed":
            for nm, g, w in zip(("gain", "offset", "value matrix", "value vector"), q.seqTransformedBackwardPass(), (K, D, S, v)):
                e = cmp_lists("transformed backward pass " + nm, g, w)
                if e: return True, e
    except Exception as ex:
        return True, f"{part} raises {type(ex).__name__}: {ex}"
    return False, "agrees"

class Conf:
    def __init__(self, t, n, m, p, T, sym, seed=1, pT=None, idZ=False, part="all"):
        self.P = Prob(n, m, p, T, sym, seed, pT)
        if idZ:
            for k in range(T): self.P.d["Z", k] = eye(m)
        P = self.P
        self.x0 = P.x0; self.n, self.m, self.T = n, m, T
        self.V, self.K, self.D, self.B = dp(P.d, T, n, m); self.S, self.v = split(self.V, n)
        self.us, self.xs = rollout(P.d, T, self.K, self.D, P.x0)
        self.extra = {}
        self.kw = dict(case=lambda env: P.case(env, part=part, **{k: mval(env, v) for k, v in self.extra.items()}), base=P.base)
    def free(self, name, *shape):
        o = np.empty(shape, dtype=object)
        for pos in np.ndindex(*shape): o[pos] = var(name + "_" + "_".join(map(str, pos)))
        return o

def guard(t, c, f):
    """run the code; an exception on a problem the property covers is reported"""
    try: return f()
    except (np.linalg.LinAlgError, ValueError, IndexError, TypeError, ZeroDivisionError, AttributeError) as ex:
        t.n_obl += 1
        env = Env({n: Fraction(c.P.base.get(n, 0)) for n in poly.VARS})
        t.report(f"raises {type(ex).__name__}: {ex}", c.kw["case"](env)); return None

def bwd(t, n, m, p, T, sym, seed=1, pT=None):
    c = Conf(t, n, m, p, T, sym, seed, pT, part="bwd"); mod = symnp.load("lqt_np"); t.paths += 1
    r = guard(t, c, lambda: c.P.make(mod).seqBackwardPass())
    if r is None: return
    for nm, g, w in zip(("gain", "offset", "S", "v"), r, (c.K, c.D, c.S, c.v)):
        eqlist(t, c, nm, g, w)

def eqlist(t, c, nm, g, w):
    t.equal(nm + " count", len(g), len(w), **c.kw)
    for k in range(len(w)): t.equals(f"{nm} {k}", g[k], w[k], **c.kw)

def fwd(t, n, m, p, T, sym, seed=1, pT=None):
    """forward pass for arbitrary gains and offsets"""
    c = Conf(t, n, m, p, T, sym, seed, pT, part="fwd"); mod = symnp.load("lqt_np"); t.paths += 1
    q = c.P.make(mod)
    r = guard(t, c, lambda: q.seqForwardPass(c.P.x0a(), [arr(k) for k in c.K], [arr(k) for k in c.D]))
    if r is None: return
    eqlist(t, c, "u", r[0], c.us); eqlist(t, c, "x", r[1], c.xs)

def simcost(t, n, m, p, T, sym, seed=1, pT=None):
    """simulation for arbitrary controls, cost for arbitrary trajectories, excess cost of every control sequence"""
    c = Conf(t, n, m, p, T, sym, seed, pT, part="sim"); mod = symnp.load("lqt_np"); t.paths += 1
    d = c.P.d
    u = [c.free(f"u{k}", m) for k in range(T)]; c.extra["u"] = u
    q = c.P.make(mod)
    r = guard(t, c, lambda: q.seqSimulation(c.P.x0a(), [arr(a) for a in u]))
    x = c.x0; xs = [x]
    for k in range(T): x = mulo(d["F", k], x) + d["c", k] + mulo(d["L", k], u[k]); xs.append(x)
    eqlist(t, c, "simulated x", r, xs)
    c2 = c.extra["xx"] = [c.free(f"xx{k}", n) for k in range(T + 1)]
    c.kw["case"] = lambda env: c.P.case(env, part="cost", u=mval(env, u), xx=mval(env, c2))
    J = guard(t, c, lambda: q.cost([arr(a) for a in u], [arr(a) for a in c2]))
    t.equal("cost of an arbitrary trajectory", J, totalcost(d, T, u, c2), **c.kw)

def optimal(t, n, m, p, T, sym, seed=1, pT=None):
    """excess cost of an arbitrary control sequence over the returned one is a sum of squares"""
    c = Conf(t, n, m, p, T, sym, seed, pT, part="opt"); mod = symnp.load("lqt_np"); t.paths += 1
    d = c.P.d
    u = [c.free(f"u{k}", m) for k in range(T)]
    q = c.P.make(mod)
    def f():
        K, D, S, v = q.seqBackwardPass()
        us, xs = q.seqForwardPass(c.P.x0a(), K, D)
        x2 = q.seqSimulation(c.P.x0a(), [arr(a) for a in u])
        return K, D, q.cost(us, xs), q.cost([arr(a) for a in u], x2), x2
    r = guard(t, c, f)
    if r is None: return
    K, D, J0, J1, x2 = r
    ex = 0
    for k in range(T):
        dl = u[k] + mulo(symnp.unwrap(K[k]), symnp.unwrap(x2[k])) - symnp.unwrap(D[k])
        ex = ex + Fraction(1, 2) * mulo(mulo(dl, c.B[k]), dl)
    c.extra["u"] = u
    t.equal("excess cost", symnp.s_sub(J1, J0), ex, **c.kw)

def batch(t, n, m, p, T, sym, seed=1, pT=None):
    c = Conf(t, n, m, p, T, sym, seed, pT, part="batch"); mod = symnp.load("lqt_np"); t.paths += 1
    r = guard(t, c, lambda: c.P.make(mod).batchSolution(c.P.x0a()))
    if r is None: return
    eqlist(t, c, "u", r[0], c.us); eqlist(t, c, "x", r[1], c.xs)

def transformed(t, n, m, p, T, sym, seed=1, pT=None):
    c = Conf(t, n, m, p, T, sym, seed, pT, idZ=True, part="transformed"); mod = symnp.load("lqt_np"); t.paths += 1
    r = guard(t, c, lambda: c.P.make(mod).seqTransformedBackwardPass())
    if r is None: return
    for nm, g, w in zip(("gain", "offset", "S", "v"), r, (c.K, c.D, c.S, c.v)): eqlist(t, c, nm, g, w)

def validate(t):
    for s in range(12):
        rng = random.Random(t.seed * 100 + s)
        n, m, p, T = rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 7)
        P = Prob(n, m, p, T, (), seed=t.seed + s, pT=rng.randint(1, 3), x0sym=False)
        case = P.case(Env(), part="all"); t.validated += 1
        bad, msg = replay(dict(case))
        if bad: t.report("concrete validation", case)

ALL = tuple(GROUPS + FINAL); AFF = ("c", "r", "s", "rT")
FULL = [(1, 1, 1, 1), (1, 1, 1, 2), (1, 1, 1, 3), (2, 1, 1, 1), (1, 2, 1, 1), (2, 1, 2, 1), (2, 2, 2, 1)]
LIN = [(2, 1, 2, 4, None), (3, 2, 2, 5, None), (2, 2, 1, 6, 2), (2, 3, 1, 2, None)]
big = chk.tier == "thorough"
def confs(full=FULL, lin=LIN, one=(2, 2, 2, 3), skip=()):
    for n, m, p, T in full: yield f"all symbolic n={n} m={m} p={p} T={T}", dict(n=n, m=m, p=p, T=T, sym=ALL)
    for n, m, p, T, pT in lin: yield f"affine symbolic n={n} m={m} p={p} T={T} pT={pT}", dict(n=n, m=m, p=p, T=T, pT=pT, sym=AFF)
    n, m, p, T = one
    for g in ("F", "L", "X", "U", "H", "Z", "M"):
        if g in skip: continue
        for k in range(T): yield f"{g}[{k}] and affine symbolic n={n} m={m} p={p} T={T}", dict(n=n, m=m, p=p, T=T, sym=AFF + ((g, k),), seed=2)
    for g in ("XT", "HT"): yield f"{g} and affine symbolic n={n} m={m} p={p} T={T}", dict(n=n, m=m, p=p, T=T, sym=AFF + (g,), seed=2)
if __name__ == "__main__":
    def add(nm, fn, it):
        for name, kw in it: chk.tasks.append((nm + " " + name, fn, kw))
    add("backward", bwd, confs(one=(2, 2, 2, 3) if not big else (3, 2, 2, 4), lin=LIN if not big else LIN + [(4, 2, 3, 10, None), (3, 3, 2, 8, 1)]))
    add("forward", fwd, confs(full=FULL[:4]))
    add("simulation and cost", simcost, confs(full=[(1, 1, 1, 2), (2, 2, 2, 1), (2, 1, 2, 2)]))
    add("optimality", optimal, confs(full=FULL[:2] + FULL[3:5] if not big else FULL[:5], one=(2, 1, 1, 2)))
    add("batch", batch, confs(full=[(1, 1, 1, 1), (1, 1, 1, 2), (2, 1, 1, 1), (1, 2, 1, 1)], one=(2, 1, 1, 2), lin=LIN[:1] + LIN[2:]))
    add("transformed", transformed, confs(full=FULL[:5], skip=("Z",)))
    chk.task(validate, name="translation validation")
    chk.main()
