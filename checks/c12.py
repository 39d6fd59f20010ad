"""C12: Condensing a tracking problem preserves its solution."""
import importlib, random
from fractions import Fraction
import numpy as np
from vlib.run import Check, Env, mval
from vlib import symnp, poly
from vlib.symnp import arr
from checks.lqt_common import *
from checks.c07 import eqlist, guard
from checks.c10 import canon, fa, st

chk = Check("C12",
    bounds_text="horizons 1 to 7 with every block length from 1 to one more than the horizon (larger block lengths included), state dimension 1 to 3, control dimension 1 to 3, output dimension 1 to 3: initial state, offsets, references symbolic; everything symbolic for dimension 1 and horizons to 3; one matrix of one step at a time symbolic for dimension 2",
    outside="larger sizes and horizons, general (non-canonical) costs, singular control costs, TensorFlow kernels themselves, rounding",
    explanation="the condensing code (NumPy source, TensorFlow graph) executed on exact rational functions; the exact dynamic-programming solution of the condensed problem it returns, converted back by the repository, asserted equal to that of the original problem")
chk.assumptions = ["floating point modelled as exact rational arithmetic", "TensorFlow kernels follow their documented semantics"]
def _imp():
    global tfsym
    from vlib import tfsym
    import checks.c10; checks.c10.tfsym = tfsym
    tfsym.module("condensing_tf"); tfsym.module("linear_speedtest")
chk.setup.append(_imp)

def un(a): return np.asarray(symnp.unwrap(a), dtype=object)
def solve_condensed(F, c, L, H, r, X, U, M, s, HT, rT, XT, x0):
    """exact solution of the condensed problem (identity control transformation)"""
    T = len(F); d = {}
    for k in range(T):
        d.update({("F", k): F[k], ("c", k): c[k], ("L", k): L[k], ("H", k): H[k], ("r", k): r[k], ("X", k): X[k], ("U", k): U[k], ("M", k): M[k], ("s", k): s[k], ("Z", k): eye(U[k].shape[0])})
    d.update({("HT", 0): HT, ("rT", 0): rT, ("XT", 0): XT})
    n, m = L[0].shape
    V, K, D, B = dp(d, T, n, m)
    return rollout(d, T, K, D, x0)

class CP:
    def __init__(self, n, m, p, T, sym, seed, pT, part, Nc):
        P = self.P = Prob(n, m, p, T, sym, seed, pT); canon(P)
        self.V, self.K, self.D, self.B = dp(P.d, T, n, m)
        self.us, self.xs = rollout(P.d, T, self.K, self.D, P.x0)
        self.kw = dict(case=lambda env: P.case(env, part=part, Nc=Nc), base=P.base)

SPEED = {"seq": "lqt_sequential_cond_bwfw", "par1": "lqt_parallel_cond_bwfw_1", "par2": "lqt_parallel_cond_bwfw_2"}
@chk.family("cond")
def replay(case):
    d, T, n, m, x0 = cdict(case); Nc = int(case["Nc"]); part = case["part"]
    V, K, D, B = dp(d, T, n, m); us, xs = rollout(d, T, K, D, x0)
    FR = lambda a: np.array([[Fraction(float(x)) for x in np.ravel(r)] for r in np.atleast_2d(a)], dtype=object).reshape(np.shape(a))
    try:
        lq = mklqt(importlib.import_module("parallel_control.lqt_np"), d, T)
        if part == "np":
            mc = importlib.import_module("parallel_control.condensing_np"); c = mc.LQTCondenser(); q = c.condense(lq, Nc)
            if len(q.F) != -(-T // Nc): return True, f"condensed problem has {len(q.F)} steps instead of {-(-T // Nc)}"
            K_, d_, _, _ = q.seqBackwardPass(); U, X = c.convertUX(*q.seqForwardPass(fl(x0), K_, d_))
        else:
            _imp(); import tensorflow as tf
            mt = importlib.import_module("parallel_control.condensing_tf"); ml = importlib.import_module("parallel_control.lqt_tf"); ms = importlib.import_module("parallel_control.linear_speedtest")
            A = ml.lqt_np_to_tf(lq)
            if part == "tf":
                Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us = A
                f = mt.condense(Fs, cs, Ls, Hs, rs, Xs, Us, Nc); q = [list(a.numpy()) for a in f[:9]]
                if len(q[0]) != -(-T // Nc): return True, f"condensed problem has {len(q[0])} steps instead of {-(-T // Nc)}"
                cu, cx = solve_condensed(*[[FR(a) for a in l] for l in q], d["HT", 0], d["rT", 0], d["XT", 0], x0)
                U, X = mt.convertUX(tf.constant(np.stack([fl(a) for a in cu])), tf.constant(np.stack([fl(a) for a in cx])), *f[9:], T)
            else: X, U = getattr(ms, SPEED[part])(tf.constant(fl(x0)), *A, Nc)
            U, X = list(U.numpy()), list(X.numpy())
        e = cmp_lists("control", U, us, 1e-5) or cmp_lists("state", X, xs, 1e-5)
        if e: return True, f"{part} blocks of {Nc}, horizon {T}: " + e
    except Exception as ex:
        return True, f"{part} blocks of {Nc}, horizon {T}: raises {type(ex).__name__}: {str(ex)[-300:]}"
    return False, "agrees"

def run(t, part, n, m, p, T, Nc, sym, seed=1, pT=None):
    c = CP(n, m, p, T, sym, seed, pT, part, Nc); P = c.P; t.paths += 1
    mod = symnp.load("lqt_np")
    fin = [P.d["HT", 0], P.d["rT", 0], P.d["XT", 0], P.x0]
    def go():
        if part == "np":
            mc = symnp.load("condensing_np"); cd = mc.LQTCondenser(); q = cd.condense(P.make(mod), Nc)
            if any(not all(np.array_equal(un(z), eye(un(u).shape[0])) for z, u in zip(q.Z, q.U)) for _ in (0,)): raise ValueError("condensed problem has a control transformation")
            L = [[un(a) for a in l] for l in (q.F, q.c, q.L, q.H, q.r, q.X, q.U, q.M, q.s)]
            cu, cx = solve_condensed(*L, un(q.HT), un(q.rT), un(q.XT), P.x0)
            u, x = cd.convertUX([arr(a) for a in cu], [arr(a) for a in cx]); return len(L[0]), u, x
        conv = tfsym.load_shim("lqt_tf"); A = conv.lqt_np_to_tf(P.make(mod))
        if part == "tf":
            Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us = A
            f = tfsym.repo("condensing_tf", "condense", Fs, cs, Ls, Hs, rs, Xs, Us, Nc=Nc)
            L = [list(un(a)) for a in f[:9]]
            cu, cx = solve_condensed(*L, *fin)
            u, x = tfsym.repo("condensing_tf", "convertUX", st(cu), st(cx), *[fa(un(a)) for a in f[9:]], T=T); return len(L[0]), u, x
        x, u = tfsym.repo("linear_speedtest", SPEED[part], P.x0a(), *A, Nc=Nc); return -(-T // Nc), u, x
    r = guard(t, c, go)
    if r is None: return
    t.equal("condensed horizon", r[0], -(-T // Nc), **c.kw)
    eqlist(t, c, "u", r[1], c.us); eqlist(t, c, "x", r[2], c.xs)

def validate(t):
    for s in range(10):
        rng = random.Random(t.seed * 100 + s)
        n, m, p, T = rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 9)
        P = Prob(n, m, p, T, (), seed=t.seed + s, pT=rng.randint(1, 3), x0sym=False); canon(P)
        for part in ["np", "tf"] + (list(SPEED) if s == 0 else []):
            case = P.case(Env(), part=part, Nc=rng.randint(1, T + 1)); t.validated += 1
            bad, msg = replay(dict(case))
            if bad: t.report("concrete validation", case)

if __name__ == "__main__":
    big = chk.tier == "thorough"
    AFF = ("c", "r", "rT")
    def add(nm, **kw): chk.tasks.append((nm + " " + " ".join(f"{k}={v}" for k, v in kw.items() if k not in ("part", "sym")), run, kw))
    for part in ("np", "tf"):
        for T in range(1, 8 if not big else 13):
            for Nc in range(1, T + 2):
                n, m, p, pT = [(2, 1, 1, 1), (3, 2, 2, 1), (2, 2, 3, 2), (1, 3, 2, 2)][(T * 3 + Nc) % 4]
                if big: n += (T + Nc) % 2
                add(part + " affine symbolic", part=part, n=n, m=m, p=p, pT=pT, T=T, Nc=Nc, sym=AFF)
        add(part + " affine symbolic", part=part, n=2, m=1, p=1, pT=1, T=3, Nc=7, sym=AFF)
        for T in (1, 2, 3):
            for Nc in range(1, T + 2): add(part + " all symbolic", part=part, n=1, m=1, p=1, T=T, Nc=Nc, sym=tuple(g for g in GROUPS + FINAL if g not in ("Z", "s", "M")))
        for n, m, p in ((2, 1, 1), (1, 2, 1), (2, 1, 2)):
            for Nc in (1, 2): add(part + " all symbolic", part=part, n=n, m=m, p=p, T=1, Nc=Nc, sym=tuple(g for g in GROUPS + FINAL if g not in ("Z", "s", "M")))
        for Nc in (2, 3):
            for g in ("F", "L", "X", "U", "H"):
                for k in range(3): add(f"{part} {g}[{k}] symbolic", part=part, n=2, m=1, p=1 + k % 2, T=3, Nc=Nc, sym=AFF + ((g, k),), seed=2)
        if big:
            for g in ("F", "L", "X", "U", "H"):
                for k in range(4): add(f"{part} {g}[{k}] symbolic", part=part, n=2, m=2, p=2, T=4, Nc=3, sym=AFF + ((g, k),), seed=2)
    for part in SPEED:
        for T, Nc in ((4, 2), (5, 2), (3, 1), (4, 3), (2, 3)): add(part + " affine symbolic", part=part, n=2, m=1, p=1, pT=2, T=T, Nc=Nc, sym=AFF)
    chk.task(validate, name="translation validation")
    chk.main()
