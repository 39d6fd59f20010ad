"""C19: Iterated nonlinear LQT linearises exactly and solves affine models in one step."""
import importlib
from checks import c07
from checks.c07 import *
from vlib.poly import ufn

chk = Check("C19",
    bounds_text="the model's function and Jacobians are uninterpreted functions of state and control (every model, every nominal trajectory) for the linearisation, the simulation and the cost, states to dimension 3, controls to 2, horizons to 5; iterations: value, Jacobians, offsets, references and nominal trajectory symbolic at sizes to (2,2,2) and horizons to 5, "
                "fully symbolic at dimension one with horizons to 3, one Jacobian of one step symbolic at a time in dimension two, remaining data concrete generic rationals; all iteration methods, parallelism limits just at and above the horizon and unlimited",
    outside="larger sizes and horizons, parallelism limits below the horizon, singular control costs, models whose Jacobian functions are wrong, convergence of the iteration, rounding",
    explanation="NumPy source and TensorFlow graphs executed with a model that is looked up at the nominal points and uninterpreted everywhere else; the linearised problem asserted equal to value and Jacobians along the trajectory, every iteration equal to exact dynamic programming of that problem, simulation and cost equal to the dynamics and the documented sum")
chk.assumptions = ["floating point modelled as exact rational arithmetic", "Cholesky and LU factorisations followed by solves modelled as exact solutions", "TensorFlow kernels follow their documented semantics"]
def _imp():
    global tfsym, tf
    from vlib import tfsym
    import tensorflow as tf
    tfsym.module("nlqt_tf"); tfsym.module("lqt_tf")
chk.setup.append(_imp)
METHODS = {"np0": 0, "np1": 1, "np2": 2}

def affine(d, T, xn, un, fv):
    """the tracking problem linearised at the nominal trajectory"""
    d = dict(d)
    for k in range(T): d["c", k] = fv[k] - mulo(d["F", k], xn[k]) - mulo(d["L", k], un[k])
    return d

# ------------------------------------------------------------------ concrete side
class Model:
    """value and Jacobians as given at the nominal points, quadratic in between"""
    def __init__(self, xn, un, fv, F, L): self.xn, self.un, self.fv, self.F, self.L = xn, un, fv, F, L
    def near(self, x, u):
        x = np.asarray(x, dtype=float); u = np.asarray(u, dtype=float)
        k = int(np.argmin([np.abs(x - a).sum() + np.abs(u - b).sum() for a, b in zip(self.xn, self.un)]))
        return k, x - self.xn[k], u - self.un[k]
    def f(self, x, u):
        k, p, q = self.near(x, u); n = len(p)
        w = 0.11 * np.sin(p.sum() * 1.3 + q.sum() * 0.7) ** 2 * np.arange(1, n + 1) + 0.07 * p * p
        return self.fv[k] + self.F[k] @ p + self.L[k] @ q + w
    def Fx(self, x, u):
        k, p, q = self.near(x, u); return self.F[k] + np.outer(np.sin(p), np.ones(len(p))) + 0.3 * np.sin(q).sum()
    def Fu(self, x, u):
        k, p, q = self.near(x, u); return self.L[k] + np.outer(np.sin(p), np.ones(len(q))) + 0.3 * np.sin(q)[None, :]

@chk.family("nlqt")
def replay(case):
    d, T, n, mu, x0 = cdict(case)
    Q = lambda v: [np.array([Fraction(i) for i in r], dtype=object) for r in v]
    xn, un, fv, uu = Q(case["xn"]), Q(case["un"]), Q(case["fv"]), Q(case["u"])
    M = Model([fl(a) for a in xn[:T]], [fl(a) for a in un], [fl(a) for a in fv], [fl(d["F", k]) for k in range(T)], [fl(d["L", k]) for k in range(T)])
    da = affine(d, T, xn, un, fv); V, K, D, B = dp(da, T, n, mu); us, xs = rollout(da, T, K, D, xn[0])
    part, lib = case["part"], case["lib"]; mn = importlib.import_module("parallel_control.nlqt_np"); ml = importlib.import_module("parallel_control.lqt_np")
    x = fl(x0); sim = [x]
    for u in uu: x = M.f(x, fl(u)); sim.append(x)
    simF = [np.array([Fraction(float(i)) for i in r], dtype=object) for r in sim]
    e = None
    try:
        q = mklqt(ml, d, T)
        if lib == "np":
            nl = mn.NLQT(q, M)
            if part == "lin":
                nl.linearize([fl(a) for a in un], [fl(a) for a in xn])
                for g in "FLc": e = e or cmp_lists(f"linearised {g}", getattr(nl.lqt, g), [da[g, k] for k in range(T)])
            elif part == "sim":
                e = cmp_lists("simulated state", nl.simulate(fl(x0), [fl(u) for u in uu]), simF) or off(nl.cost(fl(x0), [fl(u) for u in uu]), totalcost(d, T, uu, simF))
            else:
                a, b = nl.iterate([fl(a) for a in un], [fl(a) for a in xn], **({} if part == "it" else dict(lqt_method=int(part[2:]))))
                e = cmp_lists("control", a, us) or cmp_lists("state", b, xs)
        else:
            _imp(); m = importlib.import_module("parallel_control.nlqt_tf"); mt = importlib.import_module("parallel_control.lqt_tf")
            st = lambda l: tf.constant(np.stack([fl(a) for a in l]))
            def bf(g, sh):
                def h(xs, us):
                    r = tf.numpy_function(lambda a, b: np.stack([g(i, j) for i, j in zip(a, b)]), [xs, us], tf.float64); r.set_shape((xs.shape[0],) + sh); return r
                return h
            f, Fx, Fu = bf(M.f, (n,)), bf(M.Fx, (n, n)), bf(M.Fu, (n, mu))
            Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us = mt.lqt_np_to_tf(q); C = (Hs, HT, rs, rT, Xs, XT, Us)
            if part == "lin":
                r = m.nlqt_linearize(st(un), st(xn[:T]), f, Fx, Fu)
                for g, a in zip("FcL", r): e = e or cmp_lists(f"linearised {g}", list(a.numpy()), [da[g, k] for k in range(T)])
            elif part == "sim":
                e = cmp_lists("simulated state", list(m.nlqt_simulate(tf.constant(fl(x0)), st(uu), f).numpy()), simF) or off(m.nlqt_cost(tf.constant(fl(x0)), st(uu), f, *C).numpy(), totalcost(d, T, uu, simF))
            else:
                mp = {} if case.get("mp") is None else dict(max_parallel=int(case["mp"]))
                a, b = getattr(m, part)(st(un), st(xn), f, Fx, Fu, *C, **mp)
                e = cmp_lists("control", list(a.numpy()), us) or cmp_lists("state", list(b.numpy()), xs)
    except Exception as ex:
        return True, f"{lib} {part} raises {type(ex).__name__}: {str(ex)[-300:]}"
    return (True, f"{lib} {part}: {e}") if e else (False, "agrees")

# ------------------------------------------------------------------ symbolic side
def idx(a): return tuple(np.ndindex(*a.shape))
def setup(t, lib, part, n, m, p, T, sym, seed=1, pT=None, canon=False, mp=None, full=False, nom=True):
    """nominal trajectory and values; full: the whole model uninterpreted. Returns problem, nominal data and the model"""
    P = Prob(n, m, p, T, sym, seed, pT, canon=canon, x0sym=True); t.paths += 1
    if canon:
        for k in range(T): P.d["s", k] = zeros(m)
    rng = random.Random(seed + 77)
    def free(nm, k):
        v = frm(rng, k); o = np.empty(k, dtype=object)
        for i in range(k): P.base[f"{nm}_{i}"] = v[i]; o[i] = var(f"{nm}_{i}")
        return o
    xn = [free(f"xn{k}", n) for k in range(T + 1)]; un = [free(f"un{k}", m) for k in range(T)]; uu = [free(f"uu{k}", m) for k in range(T)]
    fv = [free(f"fv{k}", n) for k in range(T)]
    un_ = lambda a: [i for i in np.asarray(symnp.unwrap(a), dtype=object).reshape(-1)]
    tab = {}
    for k in range(T): tab[tuple(str(i) for i in list(xn[k]) + list(un[k]))] = k
    def look(x, u, what, shape):
        x, u = un_(x), un_(u); k = tab.get(tuple(str(i) for i in x + u))
        if k is not None and not full:
            return {"f": fv[k], "Fx": P.d["F", k], "Fu": P.d["L", k]}[what].copy()
        o = np.empty(shape, dtype=object)
        for pos in np.ndindex(*shape): o[pos] = ufn(what + "_".join(map(str, pos)), *x, *u)
        return o
    class Mod: pass
    M = Mod(); sh = {"f": (n,), "Fx": (n, n), "Fu": (n, m)}
    M.raw = {w: (lambda w: lambda x, u: look(x, u, w, sh[w]))(w) for w in sh}
    M.f, M.Fx, M.Fu = [(lambda w: lambda x, u: arr(M.raw[w](x, u)))(w) for w in ("f", "Fx", "Fu")]
    def bf(w):
        g = lambda a, b: np.stack([M.raw[w](i, j) for i, j in zip(np.asarray(symnp.unwrap(a), dtype=object), np.asarray(symnp.unwrap(b), dtype=object))])
        def h(xs, us):
            r = tf.numpy_function(g, [xs, us], tf.float64); r.set_shape((xs.shape[0],) + sh[w]); return r
        return h
    M.b = lambda: [bf(w) for w in ("f", "Fx", "Fu")]
    def case(env):
        Fv = [[mval(env, M.raw[w](xn[k], un[k])) for k in range(T)] for w in ("f", "Fx", "Fu")]
        r = P.case(env, part=part, lib=lib, xn=mval(env, xn), un=mval(env, un), fv=Fv[0], u=mval(env, uu), mp=mp)
        if full: r["F"], r["L"] = Fv[1:]
        return r
    base = dict(P.base)
    for i, v in enumerate(poly.VARS): base.setdefault(v, Fraction(1, 5) + Fraction(i % 17, 11))
    kw = dict(case=case, base=base)
    return P, xn, un, uu, fv, M, kw
def go(t, kw, f):
    try: return f()
    except (np.linalg.LinAlgError, ValueError, IndexError, TypeError, ZeroDivisionError, AttributeError) as ex:
        t.n_obl += 1
        t.report(f"raises {type(ex).__name__}: {ex}", kw["case"](Env({n: Fraction(kw["base"].get(n, Fraction(1, 5))) for n in poly.VARS}))); return None
L_ = lambda l: [arr(np.array(a, copy=True)) for a in l]
S_ = lambda l: arr(np.stack([np.asarray(a, dtype=object) for a in l]), 'f')
def eqs(t, kw, nm, g, w):
    g = list(g) if isinstance(g, list) else list(np.asarray(symnp.unwrap(g), dtype=object))
    t.equal(nm + " count", len(g), len(w), **kw)
    for k in range(min(len(w), len(g))): t.equals(f"{nm} {k}", g[k], w[k], **kw)
def costs(P): return [S_([P.d[g, k] for k in range(P.T)]) if g in GROUPS else P.fin(g) for g in ("H", "HT", "r", "rT", "X", "XT", "U")]

def lin(t, lib, n, m, T):
    P, xn, un, uu, fv, M, kw = setup(t, lib, "lin", n, m, min(n, 2), T, (), full=True, canon=True)
    R_ = {w: [M.raw[w](xn[k], un[k]) for k in range(T)] for w in ("f", "Fx", "Fu")}
    c = [R_["f"][k] - mulo(R_["Fx"][k], xn[k]) - mulo(R_["Fu"][k], un[k]) for k in range(T)]
    if lib == "np":
        q = P.make(symnp.load("lqt_np")); nl = symnp.load("nlqt_np").NLQT(q, M)
        if go(t, kw, lambda: (nl.linearize(L_(un), L_(xn)), 1)) is None: return
        r = nl.lqt.F, nl.lqt.c, nl.lqt.L
        for g in ("X", "U", "H", "r", "XT", "HT", "rT"):     # the costs stay those of the tracking problem
            w = [P.d[g, k] for k in range(T)] if g in GROUPS else [P.d[g, 0]]
            eqs(t, kw, "kept " + g, getattr(nl.lqt, g) if g in GROUPS else [getattr(nl.lqt, g)], w)
    else:
        b = M.b(); m_ = tfsym.module("nlqt_tf")
        r = go(t, kw, lambda: tfsym.run(lambda u, x: m_.nlqt_linearize(u, x, *b), S_(un), S_(xn[:T])))
        if r is None: return
    for nm, g, w in zip("FcL", r, (R_["Fx"], c, R_["Fu"])): eqs(t, kw, "linearised " + nm, g, w)

def sim(t, lib, n, m, T, p=2, sym=("X", "U", "H", "r", "XT", "HT", "rT")):
    P, xn, un, uu, fv, M, kw = setup(t, lib, "sim", n, m, p, T, sym, full=True, canon=True)
    x = P.x0; xs = [x]
    for k in range(T): x = M.raw["f"](x, uu[k]); xs.append(x)
    if lib == "np":
        nl = symnp.load("nlqt_np").NLQT(P.make(symnp.load("lqt_np")), M)
        r = go(t, kw, lambda: (nl.simulate(P.x0a(), L_(uu)), nl.cost(P.x0a(), L_(uu))))
    else:
        f = M.b()[0]; m_ = tfsym.module("nlqt_tf")
        r = go(t, kw, lambda: (tfsym.run(lambda x, u: m_.nlqt_simulate(x, u, f), P.x0a(), S_(uu)), tfsym.run(lambda x, u, *c: m_.nlqt_cost(x, u, f, *c), P.x0a(), S_(uu), *costs(P))))
    if r is None: return
    eqs(t, kw, "simulated", r[0], xs)
    t.equal("cost", symnp.unwrap(r[1]), totalcost(P.d, T, uu, xs), **kw)

def it(t, lib, part, n, m, p, T, sym, seed=1, pT=None, mp=None):
    P, xn, un, uu, fv, M, kw = setup(t, lib, part, n, m, p, T, sym, seed, pT, canon=lib == "tf", mp=mp)
    da = affine(P.d, T, xn, un, fv); V, K, D, B = dp(da, T, n, m); us, xs = rollout(da, T, K, D, xn[0])
    if lib == "np":
        nl = symnp.load("nlqt_np").NLQT(P.make(symnp.load("lqt_np")), M)
        r = go(t, kw, lambda: nl.iterate(L_(un), L_(xn), **({} if part == "it" else dict(lqt_method=int(part[2:])))))
    else:
        b = M.b(); fn = getattr(tfsym.module("nlqt_tf"), part); k = {} if mp is None else dict(max_parallel=mp)
        r = go(t, kw, lambda: tfsym.run(lambda u, x, *c: fn(u, x, *b, *c, **k), S_(un), S_(xn), *costs(P)))
    if r is None: return
    eqs(t, kw, "control", r[0], us); eqs(t, kw, "state", r[1], xs)

def validate(t):
    for s in range(5):
        rng = random.Random(t.seed * 100 + s)
        n, m, p, T = rng.randint(1, 3), rng.randint(1, 2), rng.randint(1, 3), rng.randint(1, 6)
        for lib in ("np", "tf"):
            P = Prob(n, m, p, T, (), seed=t.seed + s, pT=rng.randint(1, 3), x0sym=False, canon=lib == "tf")
            if lib == "tf":
                for k in range(T): P.d["s", k] = zeros(m)
            q = lambda k: [[Fraction(rng.randint(-8, 8), 5) for _ in range(k)]]
            ext = dict(xn=sum([q(n) for _ in range(T + 1)], []), un=sum([q(m) for _ in range(T)], []), fv=sum([q(n) for _ in range(T)], []), u=sum([q(m) for _ in range(T)], []))
            for part in (("lin", "sim", "np0", "np1", "np2", "it") if lib == "np" else ("lin", "sim", "nlqt_iterate_seq", "nlqt_iterate_par_1", "nlqt_iterate_par_2")):
                case = P.case(Env(), part=part, lib=lib, mp=None, **ext); t.validated += 1
                bad, msg = replay(dict(case))
                if bad: t.report("concrete validation", case)

if __name__ == "__main__":
    big = chk.tier == "thorough"
    def add(nm, fn, **kw): chk.tasks.append((nm + " " + " ".join(f"{k}={v}" for k, v in kw.items() if k not in ("part", "sym")), fn, kw))
    for lib in ("np", "tf"):
        for n, m, T in ((1, 1, 1), (1, 1, 3), (2, 1, 2), (1, 2, 2), (3, 2, 2), (2, 2, 5)) + (((4, 2, 6), (3, 3, 9)) if big else ()):
            add("linearize", lin, lib=lib, n=n, m=m, T=T)
        for n, m, T in ((1, 1, 1), (1, 1, 4), (2, 1, 3), (3, 2, 2)) + (((2, 2, 6),) if big else ()): add("simulate and cost", sim, lib=lib, n=n, m=m, T=T, p=min(n, 2))
    ALLN = tuple(g for g in GROUPS if g != "c") + tuple(FINAL); AFF = ("r", "s", "rT")
    def confs(lib):
        skip = ("Z", "s", "M") if lib == "tf" else ()
        S = lambda s: tuple(g for g in s if g not in skip)
        for n, m, p, T in ((1, 1, 1, 1), (1, 1, 1, 2), (1, 1, 1, 3), (2, 1, 1, 1), (1, 2, 1, 1)): yield "all symbolic", dict(n=n, m=m, p=p, T=T, sym=S(ALLN))
        for n, m, p, T, pT in ((2, 1, 2, 4, None), (3, 2, 2, 2, None), (2, 2, 1, 5, 2)) + (((3, 2, 2, 9, 1),) if big else ()): yield "affine symbolic", dict(n=n, m=m, p=p, T=T, pT=pT, sym=S(AFF))
        for g in ("F", "L"):
            for k in range(2 if not big else 3): yield f"{g}[{k}] symbolic", dict(n=2, m=2 if lib == "np" else 1, p=2, T=2 if not big else 3, sym=S(AFF) + ((g, k),), seed=2)
    for part in ("it", "np0", "np1", "np2"):
        for nm, kw in confs("np"):
            if part == "it" and nm == "all symbolic" and kw["T"] > 1: continue
            add(f"iterate {part} {nm}", it, lib="np", part=part, **kw)
    for part in ("nlqt_iterate_seq", "nlqt_iterate_par_1", "nlqt_iterate_par_2"):
        for nm, kw in confs("tf"):
            add(f"{part} {nm}", it, lib="tf", part=part, **kw)
        if "par" in part:
            for mp in (6, 8): add(f"{part} affine symbolic", it, lib="tf", part=part, n=2, m=1, p=2, T=5, sym=("r", "rT"), mp=mp)
    chk.task(validate, name="translation validation")
    chk.main()
