"""C10: TensorFlow LQT equals the optimal solution."""
import importlib
from checks import c07
from checks.c07 import *

chk = Check("C10",
    bounds_text=c07.chk.bounds_text,
    outside="larger sizes and horizons, parallelism limits below the horizon, singular control costs, TensorFlow kernels themselves, rounding",
    explanation="the tf.functions are traced to their graphs and executed on exact rational functions (Cholesky factors with square-root generators); every output asserted equal to exact dynamic programming")
chk.assumptions = ["TensorFlow kernels follow their documented semantics", "floating point modelled as exact rational arithmetic"]
def _imp():
    global tfsym
    from vlib import tfsym
    tfsym.module("lqt_tf")
chk.setup.append(_imp)

def canon(P):
    for k in range(P.T): P.d["Z", k] = eye(P.m); P.d["s", k] = zeros(P.m); P.d["M", k] = zeros(P.p, P.m)
def idz(P):
    for k in range(P.T): P.d["Z", k] = eye(P.m)

@chk.family("lqttf")
def replay(case):
    _imp()
    import tensorflow as tf
    m = importlib.import_module("parallel_control.lqt_tf"); mn = importlib.import_module("parallel_control.lqt_np")
    d, T, n, mu, x0 = cdict(case)
    V, K, D, B = dp(d, T, n, mu); S, v = split(V, n); us, xs = rollout(d, T, K, D, x0)
    part = case.get("part", "all"); mp = dict(max_parallel=int(case["mp"])) if case.get("mp") else {}
    try:
        q = mklqt(mn, d, T); X0 = tf.constant(fl(x0))
        st = lambda l: tf.constant(np.stack([fl(a) for a in l]))
        K_, D_, S_, v_ = st(K), st(D), st(S), st(v)
        def cmpb(nm, r):
            for a, w, g in zip(r, (S, v, K, D), ("value matrix", "value vector", "gain", "offset")):
                e = cmp_lists(nm + " " + g, list(a.numpy()), w)
                if e: return e
        def cmpf(nm, r):
            for a, w, g in zip(r, (xs, us), ("state", "control")):
                e = cmp_lists(nm + " " + g, list(a.numpy()), w)
                if e: return e
        if part in ("gen",):
            Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, Ms, ss = m.lqt_np_to_tf_gen(q)
            F2, c2, X2 = m.lqt_gen_to_canon(Fs, cs, Ls, Hs, rs, Xs, Us, Ms, ss)
            S2, v2, Kx, ds = m.lqt_seq_backwardpass(F2, c2, Ls, Hs, HT, rs, rT, X2, XT, Us)
            e = cmpb("conversion to canonical form and back", (S2, v2) + tuple(m.lqt_canon_to_gen(Kx, ds, Hs, rs, Us, Ms, ss)))
            return (True, e) if e else (False, "agrees")
        Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us = A = m.lqt_np_to_tf(q)
        for nm, f, c in (("sbwd", lambda: m.lqt_seq_backwardpass(*A), cmpb), ("pbwd", lambda: m.lqt_par_backwardpass(*A, **mp), cmpb),
                         ("sfwd", lambda: m.lqt_seq_forwardpass(X0, Fs, cs, Ls, K_, D_), cmpf), ("pfwd", lambda: m.lqt_par_forwardpass(X0, Fs, cs, Ls, K_, D_, **mp), cmpf),
                         ("fb", lambda: m.lqt_par_fwdbwdpass(X0, Fs, cs, Ls, Hs, rs, Xs, Us, S_, v_, K_, D_, **mp), cmpf)):
            if part in ("all", nm):
                e = c({"sbwd": "sequential backward pass", "pbwd": "parallel backward pass", "sfwd": "sequential forward pass", "pfwd": "parallel forward pass", "fb": "forward-backward pass"}[nm], f())
                if e: return True, e
        if part in ("all", "cost"):
            uu = [np.array([Fraction(i) for i in u], dtype=object) for u in case["u"]] if "u" in case else us
            xx = [np.array([Fraction(i) for i in u], dtype=object) for u in case["xx"]] if "xx" in case else xs
            e = off(m.lqt_cost(st(xx), st(uu), Hs, HT, rs, rT, Xs, XT, Us).numpy(), totalcost(d, T, uu, xx))
            if e: return True, "cost: " + e
    except Exception as ex:
        return True, f"{part} raises {type(ex).__name__}: {str(ex)[-300:]}"
    return False, "agrees"

class CConf(Conf):
    def __init__(self, t, n, m, p, T, sym, seed=1, pT=None, mode="canon", part="all", mp=None):
        old = Prob.__init__
        P = self.P = Prob(n, m, p, T, [g for g in sym if not (g in ("Z",) or g[0] == "Z" and isinstance(g, tuple))], seed, pT)
        (canon if mode == "canon" else idz)(P)
        self.x0 = P.x0; self.n, self.m, self.T = n, m, T
        self.V, self.K, self.D, self.B = dp(P.d, T, n, m); self.S, self.v = split(self.V, n)
        self.us, self.xs = rollout(P.d, T, self.K, self.D, P.x0)
        self.extra = {}
        self.kw = dict(case=lambda env: P.case(env, part=part, mp=mp, **{k: mval(env, v) for k, v in self.extra.items()}), base=P.base)

def st(l): return arr(np.stack([np.asarray(a, dtype=object) for a in l]))
def run(t, part, n, m, p, T, sym, seed=1, pT=None, mp=None):
    c = CConf(t, n, m, p, T, sym, seed, pT, "gen" if part == "gen" else "canon", part, mp); t.paths += 1
    conv = tfsym.load_shim("lqt_tf"); mod = symnp.load("lqt_np")
    kw = dict(max_parallel=mp) if mp else {}
    W = dict(S=c.S, v=c.v, K=c.K, D=c.D, x=c.xs, u=c.us)
    def go():
        q = c.P.make(mod)
        if part == "gen":
            Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, Ms, ss = conv.lqt_np_to_tf_gen(q)
            F2, c2, X2 = tfsym.repo("lqt_tf", "lqt_gen_to_canon", Fs, cs, Ls, Hs, rs, Xs, Us, Ms, ss)
            S, v, K, D = tfsym.repo("lqt_tf", "lqt_seq_backwardpass", fa(F2), fa(c2), Ls, Hs, HT, rs, rT, fa(X2), XT, Us)
            K, D = tfsym.repo("lqt_tf", "lqt_canon_to_gen", fa(K), fa(D), Hs, rs, Us, Ms, ss)
            return (S, v, K, D), "SvKD"
        Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us = A = conv.lqt_np_to_tf(q)
        K, D, S, v = st(c.K), st(c.D), st(c.S), st(c.v)
        if part == "sbwd": return tfsym.repo("lqt_tf", "lqt_seq_backwardpass", *A), "SvKD"
        if part == "pbwd": return tfsym.repo("lqt_tf", "lqt_par_backwardpass", *A, **kw), "SvKD"
        x0 = c.P.x0a()
        if part == "sfwd": return tfsym.repo("lqt_tf", "lqt_seq_forwardpass", x0, Fs, cs, Ls, K, D), "xu"
        if part == "pfwd": return tfsym.repo("lqt_tf", "lqt_par_forwardpass", x0, Fs, cs, Ls, K, D, **kw), "xu"
        if part == "fb": return tfsym.repo("lqt_tf", "lqt_par_fwdbwdpass", x0, Fs, cs, Ls, Hs, rs, Xs, Us, S, v, K, D, **kw), "xu"
        if part == "cost":
            uu = c.extra["u"] = [c.free(f"u{k}", m) for k in range(T)]; xx = c.extra["xx"] = [c.free(f"xx{k}", n) for k in range(T + 1)]
            W["J"] = totalcost(c.P.d, T, uu, xx)
            return (tfsym.repo("lqt_tf", "lqt_cost", st(xx), st(uu), Hs, HT, rs, rT, Xs, XT, Us),), "J"
    r = guard(t, c, go)
    if r is None: return
    for g, w in zip(*r):
        if w == "J": t.equal("cost", g, W["J"], **c.kw); continue
        eqlist(t, c, w, g, W[w])
def fa(a): return arr(np.asarray(a), 'f')

def validate(t):
    for s in range(4):
        rng = random.Random(t.seed * 100 + s)
        n, m, p, T = rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 9)
        P = Prob(n, m, p, T, (), seed=t.seed + s, pT=rng.randint(1, 3), x0sym=False)
        idz(P); g = P.case(Env(), part="gen"); canon(P); a = P.case(Env(), part="all", mp=T if s % 2 else None); t.validated += 2
        for case in (g, a):
            bad, msg = replay(dict(case))
            if bad: t.report("concrete validation", case)

if __name__ == "__main__":
    big = chk.tier == "thorough"
    names = {"sbwd": "sequential backward", "pbwd": "parallel backward", "sfwd": "sequential forward", "pfwd": "parallel forward", "fb": "forward-backward", "cost": "cost", "gen": "general to canonical and back"}
    for part in names:
        lin = [(2, 1, 2, 4, None), (3, 2, 2, 5, None), (2, 2, 1, 6, 2), (1, 1, 1, 9, None), (2, 3, 1, 2, None), (2, 1, 1, 8, None)] + ([(4, 2, 3, 7, 1), (2, 2, 2, 13, None)] if big else [])
        full = FULL[:6] + (FULL[6:] if big else [])
        skip = ("Z",) if part == "gen" else ("Z", "M")
        for name, kw in confs(full=full, lin=lin, one=(2, 1, 2, 3) if not big else (2, 2, 2, 4), skip=skip):
            chk.tasks.append((names[part] + " " + name, run, dict(part=part, **kw)))
        if part in ("pbwd", "pfwd", "fb"):
            for T in (1, 2, 3, 4, 5, 8):
                chk.tasks.append((names[part] + f" affine symbolic n=2 m=1 p=1 T={T} max_parallel={T}", run, dict(part=part, n=2, m=1, p=1, T=T, sym=AFF, mp=T)))
    chk.task(validate, name="translation validation")
    chk.main()
