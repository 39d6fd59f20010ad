"""C28: Timed solvers compute the reference solution; timing drivers report mean duration and error."""
import importlib, random, types, inspect
from fractions import Fraction
import numpy as np, z3
from vlib.run import Check, Env, mval
from vlib import symnp, poly, zsym
from vlib.poly import var, Rat
from vlib.symnp import arr, unwrap, asobj
from checks import c10, c17
from checks.c10 import CConf, eqlist, guard, dp, split, rollout, cdict, mklqt, cmp_lists, fl, AFF, ALL, eye
from checks.c17 import CProb, CNum, Sym, Conc, ff, ALLF, ar, FINAL, GROUPS
from checks.fsc_common import Prob as FProb, conc as fconc, check_values, check_traj, dp as fdp, scale_of, pick, pick2, in_range, B as BB
from vlib.zsym import zval, FInt

chk = Check("C28",
    bounds_text="discrete tracking: horizons 1 to 6 with affine data symbolic (n <= 2), everything symbolic for n = 1 and horizons to 2, block lengths 1 to 4; finite-state: 2 or 3 states and controls, horizons to 3; continuous time: power series in the step length through h^5, 1 to 3 blocks of 1 to 3 steps (Parareal with as many iterations as blocks, h^11; with fewer against the library's passes); nonlinear and grid routines: every result of the library's iteration and block-value routines, horizons to 3, 1 to 3 blocks; timing drivers: every duration of every call, 1 to 3 problems, 1 to 4 repetitions; generators: every model data, up to 4 lengths",
    outside="larger sizes, TensorFlow kernels themselves, rounding, devices, the printed text, how well the clock measures",
    explanation="routines traced to their graphs and executed on symbolic problem data, asserted equal to exact dynamic programming or to the NumPy routines; drivers executed with a symbolic clock advanced by symbolic durations of the calls of the timed routine, reported time asserted to be the mean over the repetitions and reported error the largest deviation from the reference")
chk.assumptions = ["TensorFlow kernels follow their documented semantics", "floating point modelled as exact rational arithmetic", "library routines inside the nonlinear and grid routines as decided by C19, C21, C22, C26"]
def _imp():
    global tfsym, tf
    from vlib import tfsym
    import tensorflow as tf
    c10.tfsym = tfsym; c17.tfsym = tfsym
    for m in ("linear_speedtest", "finite_speedtest", "nonlinear_speedtest", "contlin_speedtest", "hjb_grid_1d_speedtest"): tfsym.module(m)
chk.setup.append(_imp)
O = lambda x: np.asarray(x, dtype=object)
Q = lambda a: np.vectorize(Fraction, otypes=[object])(O(a)) if O(a).size else O(a)
def M(n): return importlib.import_module("parallel_control." + n)
CRASH = (np.linalg.LinAlgError, ValueError, IndexError, TypeError, ZeroDivisionError, AttributeError, KeyError, AssertionError)

# ------------------------------------------------------------------ discrete-time tracking
LIN = {"lqt_sequential_bw": ("SvKD", 0), "lqt_parallel_bw": ("SvKD", 0), "lqt_sequential_bwfw": ("xu", 1), "lqt_parallel_bwfw_1": ("xu", 1), "lqt_parallel_bwfw_2": ("xu", 1),
       "lqt_sequential_cond_bwfw": ("xu", 2), "lqt_parallel_cond_bwfw_1": ("xu", 2), "lqt_parallel_cond_bwfw_2": ("xu", 2), "lqt_reference": ("KDSvxu", 3)}
NAMES = dict(S="value matrix", v="value vector", K="gain", D="offset", x="state", u="control")
@chk.family("linear")
def replay(case):
    _imp(); part = case["part"]; d, T, n, mu, x0 = cdict(case)
    V, K, D, B = dp(d, T, n, mu); S, v = split(V, n); us, xs = rollout(d, T, K, D, x0); W = dict(S=S, v=v, K=K, D=D, x=xs, u=us); outs, kind = LIN[part]
    try:
        q = mklqt(M("lqt_np"), d, T); f = getattr(M("linear_speedtest"), part)
        if kind == 3: r = f(fl(x0), q)
        else:
            A = M("lqt_tf").lqt_np_to_tf(q); X0 = tf.constant(fl(x0))
            r = f(*(([] if kind == 0 else [X0]) + list(A) + ([int(case["Nc"])] if kind == 2 else [])))
        if len(r) != len(outs): return True, f"{part} returns {len(r)} results"
        for a, w in zip(r, outs):
            e = cmp_lists(f"{part} {NAMES[w]}", list(np.asarray(a)) if kind != 3 else list(a), W[w], 1e-6)
            if e: return True, e
    except Exception as ex: return True, f"{part} raises {type(ex).__name__}: {str(ex)[-300:]}"
    return False, "agrees"
def linear(t, part, n, m, p, T, sym, seed=1, pT=None, Nc=None):
    c = CConf(t, n, m, p, T, sym, seed, pT, "gen" if part == "lqt_reference" else "canon", part); t.paths += 1
    c.kw = dict(case=lambda env: c.P.case(env, part=part, Nc=Nc), base=c.P.base, family="linear")
    W = dict(S=c.S, v=c.v, K=c.K, D=c.D, x=c.xs, u=c.us); outs, kind = LIN[part]
    def go():
        q = c.P.make(symnp.load("lqt_np")); x0 = c.P.x0a()
        if kind == 3: return tfsym.load_shim("linear_speedtest").lqt_reference(x0, q)
        A = tfsym.load_shim("lqt_tf").lqt_np_to_tf(q)
        return tfsym.repo("linear_speedtest", part, *(([] if kind == 0 else [x0]) + list(A)), **({"Nc": Nc} if kind == 2 else {}))
    r = guard(t, c, go)
    if r is None: return
    if len(r) != len(outs): t.n_obl += 1; return t.report(f"{len(r)} results", c.kw["case"](Env(c.P.base)), "linear")
    for g, w in zip(r, outs): eqlist(t, c, w, g, W[w])

# ------------------------------------------------------------------ finite-state
FIN = {"fsc_seq_bw": "b", "fsc_par_bw": "b", "fsc_seq_bwfw": "xu", "fsc_par_bwfw_1": "ux", "fsc_par_bwfw_2": "ux"}
@chk.family("finite")
def replay_fin(case):
    _imp(); part = case["part"]; f, L, LT, x0 = fconc(case); L = [np.asarray(l, dtype=float) for l in L]; Qv, V, uq = fdp(f, L, LT); sc = scale_of(L, LT)
    try:
        A = M("fsc_tf").fsc_np_to_tf(M("fsc_np").FSC.checkAndExpand([a.copy() for a in f], [a.copy() for a in L], LT.copy())); g = getattr(M("finite_speedtest"), part)
        if FIN[part] == "b": us, Vs = g(*A); e = check_values(part, list(Vs.numpy()), list(us.numpy()), Qv, V, sc)
        else:
            a, b = g(tf.constant(x0, tf.int32), *A); us, xs = (a, b) if FIN[part] == "ux" else (b, a)
            if part == "fsc_par_bwfw_2" and not uq[0][x0]: return False, "tied"
            e = check_traj(part, f, L, LT, x0, us.numpy(), xs.numpy(), V[0][x0], sc)
        if e: return True, e
    except Exception as ex: return True, f"{part} raises {type(ex).__name__}: {str(ex)[-300:]}"
    return False, "agrees"
def finite(t, part, X, U, T, mode, x0="sym"):
    ft = "sym" if mode == "sym" else (lambda k, x, u: (x * (u + 1) + k * (x + 2 * u) + (mode * (x + 3 * u + 1) // 2)))
    p = FProb(X, U, T, ft, x0=x0); zsym.reset(); Qv, V, uq = p.oracle(); asm = list(p.asm)
    if part == "fsc_par_bwfw_2": asm.append(zsym.bexpr(uq[0][x0]))
    t.witness(asm); case = lambda mod: p.case(mod, part=part); fam = dict(family="finite", prefer=p.prefer)
    def body():
        c = tfsym.load_shim("fsc_tf"); n = symnp.load("fsc_np"); A = c.fsc_np_to_tf(n.FSC.checkAndExpand(list(p.f), list(p.L), p.LT))
        return tfsym.repo("finite_speedtest", part, *(([] if FIN[part] == "b" else [p.x0]) + list(A)))
    for pc, r, sc in zsym.explore(body, assume=asm):
        t.paths += 1; A = asm + pc
        bad = isinstance(r, zsym.Raised) or len(r) != 2
        if not bad:
            if FIN[part] == "b": us, Vs = r; bad = us.shape != (T, X) or Vs.shape != (T + 1, X)
            else: us, xs = r if FIN[part] == "ux" else r[::-1]; bad = us.shape != (T,) or xs.shape != (T + 1,)
        if bad:
            t.n_obl += 1; rr, mod = t.solve(A)
            if rr == z3.sat: t.report("raises or returns wrong shapes", case(mod), "finite")
            continue
        for c, txt in sc: t.prove(txt, c, A, case, **fam)
        if FIN[part] == "b":
            for k in range(T + 1):
                for x in range(X): t.prove(f"value step {k} state {x}", zval(Vs[k][x]) == zval(V[k][x]), A, case, **fam)
            for k in range(T):
                for x in range(X): t.prove(f"control step {k} state {x}", z3.And(in_range(us[k][x], U), zval(pick(Qv[k][x], us[k][x])) == zval(V[k][x])), A, case, **fam)
            continue
        i = lambda v: int(v) if isinstance(v, np.generic) else v
        cl = [BB(i(xs[0]) == p.x0)]; cost = 0
        for k in range(T):
            cl += [in_range(i(us[k]), U), in_range(i(xs[k]), X)]
        t.prove("trajectory in range", z3.And(*cl), A, case, **fam)
        for k in range(T):
            t.prove(f"step {k}", BB(pick2(p.f[k], i(xs[k]), i(us[k])) == i(xs[k + 1])), A, case, **fam); cost = cost + pick2(p.L[k], i(xs[k]), i(us[k]))
        cost = cost + pick(list(p.LT), i(xs[T])); t.prove("optimal cost", zval(cost) == zval(pick(V[0], p.x0)), A, case, **fam)

# ------------------------------------------------------------------ continuous-time tracking
CONT = {"clqt_ref_sol_1": ("seq", "fw"), "clqt_ref_sol_2": ("seq", "fb"), "clqt_seq_bw": ("seq", None), "clqt_seq_bw_fw": ("seq", "fw"), "clqt_par_bw": ("par", None), "clqt_par_bw_fw": ("par", "fw"), "clqt_par_bw_fwbw": ("par", "fb"),
        "clqt_parareal_bw": ("para", None), "clqt_parareal_bw_fw": ("para", "fw"), "clqt_parareal_bw_fwbw": ("para", "fb")}
def cont_body(part, B, s, k):
    def f(F, v):
        g = getattr(M("contlin_speedtest"), part); fin = [v["XT"], v["HT"], v["rT"]]
        return g(B, s, *([k] if "parareal" in part else []), v["x0"], *fin, v["T"], *ff(F, ALLF))
    return f
def cont_np(part, q, P, B, s, k, w, pr):
    """the NumPy routines: S, v, K, d (and x, u)"""
    how, fw = CONT[part]; N = B * s; x0 = w(P.x0)
    if how == "para": p = pr.Parareal_CLQT_np(q); K, d, S, v = p.backwardPass(B, s, niter=k)
    elif how == "par": K, d, S, v = q.parBackwardPass(B, s)
    else: K, d, S, v = q.seqBackwardPass(N)
    r = [S, v, K, d]
    if fw == "fw": u, x = q.seqForwardPass(x0, K, d) if how == "seq" else q.parForwardPass(x0, K, d, B, s) if how == "par" else p.forwardPass(B, s, x0, K, d, niter=k)
    elif fw and how == "par": u, x = q.parFwdBwdPass(x0, K, d, S, v, B, s)
    elif fw: A, b, C = q.seqFwdBwdPass(x0, N) if how == "seq" else p.fwdBwdPass(B, s, x0, niter=k); u, x = q.combineForwardBackward(K, d, S, v, A, b, C)
    return r + ([x, u] if fw else [])
COUT = ("S", "v", "gain", "offset", "state", "control")
@chk.family("contlin")
def replay_cont(case):
    _imp(); part, B, s, k = case["part"], int(case["blocks"]), int(case["steps"]), int(case["niter"]); P = CNum(case, 1 / 16)
    try: want = cont_np(part, P.make(M("clqt_np")), P, B, s, k, lambda a: np.array(a, dtype=float), M("parareal_clqt_np"))
    except Exception as ex: return False, f"the NumPy version raises {ex}"
    if not all(np.all(np.isfinite(fl(a))) for w in want for a in w): return False, "the NumPy version overflows"
    try:
        got = Conc().go(cont_body(part, B, s, k), dict(T=P.T, x0=P.x0), P)
        if len(got) != len(want): return True, f"{part} returns {len(got)} results"
        for nm, g, w in zip(COUT, got, want):
            e = cmp_lists(f"{part} with {B} blocks of {s} steps" + (f", {k} iterations, " if "parareal" in part else ", ") + nm, list(g.numpy()), w, 1e-9)
            if e: return True, e
    except Exception as ex: return True, f"{part} raises {type(ex).__name__}: {str(ex)[-300:]}"
    return False, "agrees"
def contlin(t, part, cfgs):
    for kw in cfgs: contlin1(t, part, **kw)
def contlin1(t, part, n, m, p, B, s, sym=(), k=0, order=5, pT=None):
    P = CProb(n, m, p, B * s, sym, order=order, t0=False, dt=False, pT=pT); t.paths += 1
    case = lambda env: P.case(env, part=part, blocks=B, steps=s, niter=k)
    want = cont_np(part, P.make(symnp.load("clqt_np")), P, B, s, k, ar, symnp.load("parareal_clqt_np"))
    try: got = Sym(P).go(cont_body(part, B, s, k), dict(T=P.T, x0=P.x0), P, key=(part, B, s, k))
    except CRASH as ex: t.n_obl += 1; return t.report(f"raises {type(ex).__name__}: {ex}", case(Env({x: Fraction(P.base.get(x, 0)) for x in poly.VARS})), "contlin")
    kw = dict(case=case, base=P.base, family="contlin"); t.equal("number of results", len(got), len(want), **kw)
    for nm, a, b in zip(COUT, got, want):
        t.equal(nm + " count", len(a), len(b), **kw)
        for i in range(min(len(a), len(b))): t.equals(f"{part} {nm} {i}", a[i], b[i], **kw)

# ------------------------------------------------------------------ routines around an iteration decided elsewhere
class Mix:
    """an uninterpreted function of its tensor arguments: every scalar of the result depends on every scalar of the arguments in its own way"""
    def __init__(self): self.calls = 0
    def __call__(self, out, *args):
        return tf.stack([self.flat(i, args) for i in range(int(np.prod(out)))]) if False else tf.reshape(tf.stack([self.flat(i, args) for i in range(int(np.prod(out)))]), out)
    def flat(self, i, args):
        s = tf.constant(0.0, tf.float64); j = 0
        for a in args:
            a = tf.reshape(tf.cast(a, tf.float64), [-1])
            for q in range(a.shape[0]): s = s + (1.0 + ((i * 7 + j * 3) % 11)) / 16.0 * a[q] * (1.0 + (a[q] / 8.0 if j == i else 0.0)); j += 1
        return s
ORDER = ["us", "xs", "f", "Fx", "Fu", "Hs", "HT", "rs", "rT", "Xs", "XT", "Us"]
def iterate(kind, mp_seen):
    """contract of one iteration of the library (its meaning is decided by C19): linear in the trajectory with coefficients from the problem"""
    def it(us, xs, f, Fx, Fu, Hs, HT, rs, rT, Xs, XT, Us, max_parallel=10000):
        mp_seen.append((kind, max_parallel))
        g = f(xs, us) if False else None
        c = tf.add_n([tf.reduce_sum(a * w) for a, w in ((Hs, 1.0), (HT, .5), (rs, .25), (rT, .125), (Xs, 2.0), (XT, 4.0), (Us, 8.0))])
        fx = f(xs[0], us[0]); jx = Fx(xs[0], us[0]); ju = Fu(xs[0], us[0])
        return 0.5 * us + c + tf.reduce_sum(fx) + 3.0 * tf.reduce_sum(ju), 0.25 * xs + tf.reduce_sum(us) + tf.reduce_sum(jx)
    return it
NL = {"nlqt_iter_seq": "nlqt_iterate_seq", "nlqt_iter_par_1": "nlqt_iterate_par_1", "nlqt_iter_par_2": "nlqt_iterate_par_2"}
ITER = 10
def nl_models(w): return (lambda x, u: x * w + u, lambda x, u: tf.linalg.diag(x + w), lambda x, u: tf.linalg.diag(u - w))
def nl_run(part, vals, real):
    m = M("nonlinear_speedtest"); seen = []; keep = m.nlqt_tf; m.nlqt_tf = types.SimpleNamespace(**{v: iterate(v, seen) for v in NL.values()})
    def f(us, xs, w, *a): return getattr(m, part)(us, xs, *nl_models(w), *a)
    def ref(us, xs, w, *a):
        for _ in range(ITER): us, xs = iterate(None, [])(us, xs, *nl_models(w), *a)
        return us, xs
    try:
        if real: r = f(*vals), ref(*vals)
        else: r = tfsym.run(lambda *a: f(*a), *vals), tfsym.run(lambda *a: ref(*a), *vals)
    finally: m.nlqt_tf = keep
    return r, seen
def nl_bad(part, seen, T):
    """which iteration is called, and whether its parallelism covers the horizon"""
    for k, mp in seen:
        if k != NL[part]: return f"{part} calls {k}"
        if "par" in part and mp is not None and mp < T: return f"{part} limits the parallelism to {mp} for horizon {T}"
def nl_shapes(T, n): return [(T, n), (T + 1, n), (), (T, 1, n), (2, n), (T, 1), (2,), (T, 1, 1), (2, 2), (T, n, n)]
@chk.family("nonlinear")
def replay_nl(case):
    _imp(); vals = [tf.constant(fl(Q(v)), tf.float64) for v in case["vals"]]; part = case["part"]
    try:
        (a, b), seen = nl_run(part, vals, True); e = nl_bad(part, seen, int(case["T"]))
        if e: return True, e
        for nm, x, y in zip(("controls", "states"), a, b):
            if x.shape != y.shape or not np.allclose(x, y, rtol=1e-9, atol=1e-9): return True, f"{part}: {nm} are not those of {ITER} iterations"
    except Exception as ex: return True, f"{part} raises {type(ex).__name__}: {str(ex)[-300:]}"
    return False, "agrees"
def tvar(nm, shape):
    o = np.empty(shape, dtype=object)
    for pos in np.ndindex(*shape): o[pos] = var(nm + "".join(f"_{i}" for i in pos))
    return o
def genv(): return {poly.VARS[i] if False else v: Fraction(3 + (7 * i) % 13, 8) for i, v in enumerate(poly.VARS)}
def nonlin(t, part, T, n):
    t.paths += 1; vals = [tvar(f"q{i}", s) for i, s in enumerate(nl_shapes(T, n))]
    case = lambda env: dict(part=part, T=T, vals=[mval(env, v) for v in vals])
    try: (a, b), seen = nl_run(part, [arr(v, 'f') for v in vals], False)
    except CRASH as ex: t.n_obl += 1; return t.report(f"raises {type(ex).__name__}: {ex}", case(Env(genv())), "nonlinear")
    t.n_obl += 1; e = nl_bad(part, seen, T)
    if e: return t.report(e, case(Env(genv())), "nonlinear")
    t.n_dis += 1; kw = dict(case=case, base=genv(), family="nonlinear")
    for nm, x, y in zip(("controls", "states"), a, b): t.equals(nm, x, y, **kw)

HJ = ("seq_upwind", "seq_assoc", "par_assoc")
def hj_stub(real):
    """contract of the grid library: block values and passes as functions of everything they are given"""
    def block(f, L, T, steps, xg, max_iter=None):
        a = xg[:, None]; b = xg[None, :]; return L(a, b) * T + f(a, b) * float(steps) + a * a * b + 0.5 * b * float(max_iter if max_iter is not None else 3)
    def assoc(LT, blocks, xg, V, **kw):
        r = [LT(xg)]
        for i in range(int(blocks)): r.insert(0, tf.linalg.matvec(V, r[0]) + float(i))
        return tf.stack(r)
    def par(LT, blocks, xg, V, max_parallel=10000):
        if max_parallel < blocks: raise ValueError("parallelism below the number of blocks")
        return assoc(LT, blocks, xg, V)
    def up(f, L, LT, T, blocks, steps, xg, ug):
        return tf.stack([LT(xg) + T * float(blocks) + float(i) * float(steps) + L(xg, ug) * f(xg, ug) for i in range(int(blocks) + 1)])
    return types.SimpleNamespace(direct_shooting_block_V=block, seq_bw_pass_assoc=assoc, par_bw_pass=par, seq_bw_pass_upwind=up)
HF = (lambda x, u: x * x + 2.0 * u, lambda x, u: x + u * u, lambda x: 3.0 * x - 1.0)
def hj_run(part, blocks, steps, vals, real):
    m = M("hjb_grid_1d_speedtest"); keep = m.hjb_grid_1d_tf; S = m.hjb_grid_1d_tf = hj_stub(real)
    f, L, LT = HF
    def got(bT, xg, ug): return getattr(m, part)(f, L, LT, bT, blocks, steps, xg, *([ug] if part == "seq_upwind" else []))
    def ref(bT, xg, ug):
        if part == "seq_upwind": return S.seq_bw_pass_upwind(f, L, LT, bT * blocks, blocks, steps, xg, ug)
        return S.seq_bw_pass_assoc(LT, blocks, xg, S.direct_shooting_block_V(f, L, bT, steps, xg, max_iter=10))
    try:
        if real: return got(*vals), ref(*vals)
        return tfsym.run(lambda *a: got(*a), *vals), tfsym.run(lambda *a: ref(*a), *vals)
    finally: m.hjb_grid_1d_tf = keep
@chk.family("grid")
def replay_hj(case):
    _imp(); part, b, s = case["part"], int(case["blocks"]), int(case["steps"])
    try:
        x, y = hj_run(part, b, s, [tf.constant(fl(Q(v)), tf.float64) for v in case["vals"]], True)
        if x.shape != y.shape or not np.allclose(x, y, rtol=1e-9, atol=1e-9): return True, f"{part} with {b} blocks of {s} steps does not compute the stated passes"
    except Exception as ex: return True, f"{part} raises {type(ex).__name__}: {str(ex)[-300:]}"
    return False, "agrees"
def grid(t, part, blocks, steps):
    t.paths += 1; vals = [tvar("bT", ()), tvar("xg", (2,)), tvar("ug", (2,))]
    case = lambda env: dict(part=part, blocks=blocks, steps=steps, vals=[mval(env, v) for v in vals])
    try: x, y = hj_run(part, blocks, steps, [arr(v, 'f') for v in vals], False)
    except CRASH as ex: t.n_obl += 1; return t.report(f"raises {type(ex).__name__}: {ex}", case(Env(genv())), "grid")
    t.equals(part, x, y, case=case, base=genv(), family="grid")

# ------------------------------------------------------------------ models handed to the drivers
def tracking_model(t):
    t.paths += 1; m, l = M("contlin_speedtest"), M("linear_model_tf"); s = var("s")
    def flat(tup, time): return [a for a in tup[:5]] + [f(time) for f in tup[5:]]
    a = tfsym.run(lambda time: flat(m.clqr_get_tracking_model(), time), arr(O(s).reshape(()), 'f'))
    def ref(time):
        x0, T, XT, HT, rT, *fs = l.get_clqt(dtype=tf.float64); return flat((x0, XT, HT, rT, T, *fs), time)
    b = tfsym.run(ref, arr(O(s).reshape(()), 'f')); case = lambda env: dict(s=mval(env, s)); base = {"s": Fraction(5, 7)}
    for nm, x, y in zip(("x0", "XT", "HT", "rT", "T", "F", "L", "X", "U", "c", "H", "r"), a, b):
        t.equal(nm + " shape", len(np.shape(x)), len(np.shape(y)), case=case, base=base, family="model"); t.equals(nm, x, y, case=case, base=base, family="model")
@chk.family("model")
def replay_model(case):
    _imp(); s = tf.constant(float(Fraction(case["s"])), tf.float64); x0, T, XT, HT, rT, *fs = M("linear_model_tf").get_clqt(dtype=tf.float64); want = [x0, XT, HT, rT, T] + [f(s) for f in fs]
    try: r = M("contlin_speedtest").clqr_get_tracking_model(); got = list(r[:5]) + [f(s) for f in r[5:]]
    except Exception as ex: return True, f"clqr_get_tracking_model raises {type(ex).__name__}: {str(ex)[-300:]}"
    for nm, x, y in zip(("x0", "XT", "HT", "rT", "T", "F", "L", "X", "U", "c", "H", "r"), got, want):
        if np.shape(x) != np.shape(y) or not np.allclose(x, y): return True, f"clqr_get_tracking_model gives a wrong {nm}"
    return False, "agrees"
def grid_model(t, nx, nu):
    t.paths += 1; m, l = M("hjb_grid_1d_speedtest"), M("cnonlin_models_tf")
    def flat(tup, x, u): return [tup[0](x, u), tup[1](x, u), tup[2](x), tup[3], tup[4], tup[5]]
    x, u = tvar("x", (2,)), tvar("u", (2,))
    a, b = [unwrap_all(tfsym.run(lambda x, u: [tf.cast(v, tf.float64) for v in flat(g(nx, nu), x, u)], arr(x.copy(), 'f'), arr(u.copy(), 'f'))) for g in (m.get_model, l.velocity_model)]
    case = lambda env: dict(nx=nx, nu=nu, x=mval(env, x), u=mval(env, u)); kw = dict(case=case, base=genv(), family="gridmodel")
    for nm, p, q in zip(("drift", "running cost", "terminal cost", "horizon", "state grid", "control grid"), a, b):
        t.equal(nm + " size", np.size(p), np.size(q), **kw)
        if np.shape(p) == np.shape(q): t.equals(nm, p, q, **kw)
def unwrap_all(l): return [O(unwrap(asobj(v))) for v in l]
@chk.family("gridmodel")
def replay_gm(case):
    _imp(); nx, nu = int(case["nx"]), int(case["nu"]); x, u = [tf.constant(fl(Q(case[k])), tf.float64) for k in "xu"]
    def flat(tup): return [tup[0](x, u), tup[1](x, u), tup[2](x), tup[3], tup[4], tup[5]]
    want = flat(M("cnonlin_models_tf").velocity_model(nx, nu))
    try: got = flat(M("hjb_grid_1d_speedtest").get_model(nx, nu))
    except Exception as ex: return True, f"get_model raises {type(ex).__name__}: {str(ex)[-300:]}"
    for nm, p, q in zip(("drift", "running cost", "terminal cost", "horizon", "state grid", "control grid"), got, want):
        if np.shape(p) != np.shape(q) or not np.allclose(p, q): return True, f"get_model({nx}, {nu}) gives a wrong {nm}"
    return False, "agrees"

# ------------------------------------------------------------------ drivers
class Clock:
    """time advances only while the timed routine runs (d: duration of each of its calls) and while problems are generated or references computed (e)"""
    def __init__(self, start, d, e): self.now, self.d, self.e, self.calls = start, d, list(e), []
    def run(self, args): i = len(self.calls); self.calls.append(args); self.now = self.now + (self.d[i] if i < len(self.d) else self.d[-1] * 0 + 1000)
    def other(self): self.now = self.now + (self.e.pop(0) if self.e else 1)
    def __call__(self): return self.now
class Sec:
    """a symbolic duration that can be printed"""
    def __init__(self, r): self.r = r.r if isinstance(r, Sec) else r
    def _b(op):
        def f(a, b): return Sec(op(a.r, b.r if isinstance(b, Sec) else Fraction(b) if isinstance(b, (int, float)) else b))
        return f
    __add__ = _b(lambda a, b: a + b); __radd__ = _b(lambda a, b: b + a); __sub__ = _b(lambda a, b: a - b); __rsub__ = _b(lambda a, b: b - a); __mul__ = _b(lambda a, b: a * b); __rmul__ = __mul__; __truediv__ = _b(lambda a, b: a / b)
    def __float__(self): return 0.0
    def __int__(self): return 0
class Ten:
    """a tensor of which only the shape is looked at"""
    def __init__(self, nm, shape): self.nm, self.shape = nm, shape
    def __getattr__(self, n): raise AttributeError(n)
DRIV = {"linear_speedtest": [n for n in LIN if n != "lqt_reference"], "finite_speedtest": list(FIN), "nonlinear_speedtest": list(NL), "contlin_speedtest": [n for n in CONT if "ref_sol" not in n], "hjb_grid_1d_speedtest": list(HJ)}
def timemod(clk):
    f = lambda: clk(); return types.SimpleNamespace(time=f, perf_counter=f, monotonic=f, process_time=f, time_ns=None)
class patched:
    def __init__(self, m, **kw): self.m, self.kw = m, kw
    def __enter__(self): self.old = {k: getattr(self.m, k) for k in self.kw if hasattr(self.m, k)}; [setattr(self.m, k, v) for k, v in self.kw.items()]
    def __exit__(self, *a): [setattr(self.m, k, self.old[k]) if k in self.old else delattr(self.m, k) for k in self.kw]
def same(a, b): return len(a) == len(b) and all(x is y or (isinstance(x, (int, float)) and x == y) for x, y in zip(a, b))
def drive_list(mod, part, P, n_iter, extra, start, d, e, dims):
    """drivers over generated problems: returns (lists T, D, times) and a description of wrong calls"""
    m = M(mod); clk = Clock(start, d, e); nout = 2 if ("bwfw" in part or "iter" in part or mod == "finite_speedtest") else 4
    names = {"linear_speedtest": ["x0", "Fs", "cs", "Ls", "Hs", "HT", "rs", "rT", "Xs", "XT", "Us"], "finite_speedtest": ["x0", "fs", "Ls", "LT"], "nonlinear_speedtest": ORDER}[mod]
    probs = []
    for k in range(P):
        T, D = dims[k]; sh = {"x0": (D,), "Fs": (T, D, D), "cs": (T, D), "Ls": (T, D, 2), "Hs": (T, 5, D), "HT": (6, D), "rs": (T, 5), "rT": (6,), "Xs": (T, 5, 5), "XT": (6, 6), "Us": (T, 2, 2), "fs": (T, D, 3), "LT": (D,), "us": (T, 2), "xs": (T + 1, D)}
        if mod == "finite_speedtest": sh["Ls"] = (T, D, 3); sh["x0"] = ()
        probs.append([Ten(n, sh.get(n)) for n in names])
    def gen():
        for p in probs: clk.other(); yield tuple(p)
    def timed(*a): clk.run(a); return tuple(Ten("r", ()) for _ in range(nout))
    kw = {"n_iter": n_iter}; kw.update({} if extra is None else {"Nc": extra})
    with patched(m, **{part: timed, "time": timemod(clk), "print": lambda *a, **k: None}): r = getattr(m, part + "_speedtest")(gen(), **kw)
    bad = None
    if len(clk.calls) != P * (n_iter + 1): bad = f"{len(clk.calls)} calls for {P} problems timed over {n_iter} repetitions after a first one"
    for i, a in enumerate(clk.calls):
        p = probs[min(i // (n_iter + 1), P - 1)]; want = list(p)
        if part in ("lqt_sequential_bw", "lqt_parallel_bw", "fsc_seq_bw", "fsc_par_bw"): want = want[1:]
        if "cond" in part: want.append(4 if extra is None else extra)
        if not bad and not same(a, want): bad = f"call {i} has other arguments than the problem's"
    return r, bad
def default_iter(f): return inspect.signature(f).parameters["n_iter"].default
@chk.family("driver")
def replay_driver(case):
    _imp(); mod, part, P, n = case["mod"], case["part"], int(case["P"]), int(case["n_iter"]); d = [float(Fraction(v)) for v in case["d"]]; e = [float(Fraction(v)) for v in case["e"]]; dims = [(int(a), int(b)) for a, b in case["dims"]]
    try: (T, D, times), bad = drive_list(mod, part, P, n, None if case["extra"] is None else int(case["extra"]), float(Fraction(case["start"])), d, e, dims)
    except Exception as ex: return True, f"{part}_speedtest raises {type(ex).__name__}: {str(ex)[-300:]}"
    if bad: return True, f"{part}_speedtest makes {bad}"
    want = [sum(d[k * (n + 1) + 1:(k + 1) * (n + 1)]) / n for k in range(P)]
    if [int(v) for v in T] != [a for a, _ in dims] or [int(v) for v in D] != [b for _, b in dims]: return True, f"{part}_speedtest reports horizons {T} and dimensions {D} for {dims}"
    if len(times) != P or not np.allclose(times, want): return True, f"{part}_speedtest reports mean durations {times} instead of {want}"
    return False, "agrees"
def driver(t, mod, part, P, n_iter, extra):
    t.paths += 1; d = [var(f"d{i}") for i in range(P * (n_iter + 1))]; e = [var(f"e{i}") for i in range(P)]; st = var("start"); dims = [(7 + 3 * k, 2 + k) for k in range(P)]
    case = lambda env: dict(mod=mod, part=part, P=P, n_iter=n_iter, extra=extra, d=mval(env, O(d)), e=mval(env, O(e)), start=mval(env, st), dims=dims); base = genv(); kw = dict(case=case, base=base, family="driver")
    try: (T, D, times), bad = drive_list(mod, part, P, n_iter, extra, Sec(st), [Sec(v) for v in d], [Sec(v) for v in e], dims)
    except CRASH as ex: t.n_obl += 1; return t.report(f"raises {type(ex).__name__}: {ex}", case(Env(base)), "driver")
    t.n_obl += 1
    if bad: return t.report(bad, case(Env(base)), "driver")
    t.n_dis += 1
    for nm, l in (("horizons", T), ("dimensions", D), ("durations", times)): t.equal("number of " + nm, len(l), P, **kw)
    for k in range(min(P, len(T), len(D), len(times))):
        t.equal(f"horizon {k}", T[k], dims[k][0], **kw); t.equal(f"dimension {k}", D[k], dims[k][1], **kw)
        t.equal(f"mean duration {k}", times[k].r if isinstance(times[k], Sec) else times[k], sum(d[k * (n_iter + 1) + 1:(k + 1) * (n_iter + 1)]) / n_iter, **kw)

def drive_one(mod, part, B, s, n_iter, niter, clk, bT, arrays, real):
    """drivers with errors against a reference solution; arrays: timed results, then reference results -> elapsed, errors, wrong calls"""
    m = M(mod); model = ["m%d" % i for i in range(12)]; out = {}
    hj = mod == "hjb_grid_1d_speedtest"
    if hj: model = [None] * 6
    def go(*a):
        if hj:
            V, V0, xg, ug = a; mod_ = (*HF, tf.constant(99.0, tf.float64), xg, ug)
            def timed(*z): clk.run(z); return V
            def ref(f, L, LT, T, blocks, steps, x, u):
                clk.other(); out["ref"] = (f, L, LT, blocks, steps, x, u); return V0 * 1.0 + 0.0 * T if False else V0 + (T - BT * B)
            BT = tf.constant(bT, tf.float64)
            kw = dict(n_iter=n_iter, steps=s, block_T=bT)
            with patched(m, **{part: timed, "time": timemod(clk), "print": lambda *a, **k: None, "hjb_grid_1d_tf": types.SimpleNamespace(seq_bw_pass_upwind=ref)}): el, e1, e2 = getattr(m, part + "_speedtest")(mod_, B, **kw)
            out["el"] = el; want = [*HF, bT, B, s, xg] + ([ug] if part == "seq_upwind" else []); ok = True
            for z in clk.calls: ok &= len(z) == len(want) and all(p is q or (i == 3 and tf.is_tensor(p) and float(tf.get_static_value(p)) == bT) or (isinstance(p, int) and p == q) for i, (p, q) in enumerate(zip(z, want)))
            ok &= "ref" in out and same(out["ref"], (*HF, B, s, xg, ug)); out["ok"] = ok
            return e1, e2
        k = len(a) // 2; got, refs = a[:k], a[k:]
        nout = k
        def timed(*z): clk.run(z); return tuple(got) if "fw" in part else tuple(got[:4])
        def ref(*z): clk.other(); out.setdefault("refs", []).append(z); return tuple(refs)
        kw = dict(n_iter=n_iter); kw.update({} if niter is None else dict(parareal_niter=niter))
        with patched(m, **{part: timed, "time": timemod(clk), "print": lambda *a, **k: None, "clqt_ref_sol_1": ref, "clqt_ref_sol_2": ref}): el, err = getattr(m, part + "_speedtest")(tuple(model), B, s, **kw)
        out["el"] = el; want = [B, s] + ([2 if niter is None else niter] if "parareal" in part else []) + model
        out["ok"] = all(list(z) == want for z in clk.calls) and all(list(z) == [B, s] + model for z in out["refs"])
        return err
    if real: r = go(*arrays)
    else:

        nc = tf.autograph.experimental.do_not_convert(go); from tensorflow.python.framework import tensor as tmod
        base = tmod.Tensor; had = "numpy" in base.__dict__; old = base.__dict__.get("numpy")
        base.numpy = lambda self: 0.0
        try: r = tfsym.run(nc, *arrays)
        finally:
            if had: base.numpy = old
            else: del base.numpy
    return r, out
@chk.family("errors")
def replay_errors(case):
    _imp(); mod, part, B, s, n = case["mod"], case["part"], int(case["B"]), int(case["s"]), int(case["n_iter"]); niter = None if case["niter"] is None else int(case["niter"])
    A = [fl(Q(a)) for a in case["arrays"]]; d = [float(Fraction(v)) for v in case["d"]]; clk = Clock(float(Fraction(case["start"])), d, [float(Fraction(v)) for v in case["e"]])
    try: r, out = drive_one(mod, part, B, s, n, niter, clk, 0.25, [tf.constant(a, tf.float64) for a in A], True)
    except Exception as ex: return True, f"{part}_speedtest raises {type(ex).__name__}: {str(ex)[-300:]}"
    w = want_err(mod, part, A, lambda x: np.max(np.abs(x)))
    if not out["ok"]: return True, f"{part}_speedtest runs the timed or reference routine with other arguments"
    if len(clk.calls) != n + 1: return True, f"{part}_speedtest makes {len(clk.calls)} calls for {n} repetitions after a first one"
    if not np.allclose(float(out["el"]), sum(d[1:n + 1]) / n): return True, f"{part}_speedtest reports mean duration {out['el']} instead of {sum(d[1:n + 1]) / n}"
    r = [float(v) for v in (r if isinstance(r, tuple) else (r,))]
    if not np.allclose(r, w): return True, f"{part}_speedtest reports errors {r} instead of {w}"
    return False, "agrees"
def want_err(mod, part, A, mx):
    if mod == "hjb_grid_1d_speedtest":
        V, V0, xg, ug = A; n = len(xg); return [mx(V - V0), mx(V[:, n // 3:2 * n // 3] - V0[:, n // 3:2 * n // 3])]
    k = len(A) // 2; i = 4 if "fw" in part else 0; return [mx(A[i] - A[k + i])]
def errors(t, mod, part, B, s, n_iter, niter, free=()):
    t.paths += 1; hj = mod == "hjb_grid_1d_speedtest"
    if hj:
        A = [tvar("V", (2, 5)), tvar("W", (2, 5)), tvar("xg", (5,)), tvar("ug", (2,))]
        for i, pos in enumerate(np.ndindex(2, 5)):          # the other deviations are constants
            if pos not in free: A[1][pos] = A[0][pos] + Fraction((-1) ** i * (i % 3 + 1), 8)
    else: A = [tvar(f"a{i}", sh) for i, sh in enumerate([(2, 1), (2,), (1, 2), (2,), (3,), (2,)] * 2)]
    d = [var(f"d{i}") for i in range(n_iter + 1)]; e = [var(f"e{i}") for i in range(3)]; st = var("start"); clk = Clock(Sec(st), [Sec(v) for v in d], [Sec(v) for v in e])
    case = lambda env: dict(mod=mod, part=part, B=B, s=s, n_iter=n_iter, niter=niter, arrays=[mval(env, a) for a in A], d=mval(env, O(d)), e=mval(env, O(e)), start=mval(env, st)); base = genv(); kw = dict(case=case, base=base, family="errors")
    try: r, out = drive_one(mod, part, B, s, n_iter, niter, clk, 0.25, [arr(a, 'f') for a in A], False)
    except CRASH as ex: t.n_obl += 1; return t.report(f"raises {type(ex).__name__}: {ex}", case(Env(base)), "errors")
    t.n_obl += 1
    if not out["ok"] or len(clk.calls) != n_iter + 1: return t.report("calls of the timed and reference routines", case(Env(base)), "errors")
    t.n_dis += 1
    el = out["el"]; t.equal("mean duration", el.r if isinstance(el, Sec) else el, sum(d[1:n_iter + 1]) / n_iter, **kw)
    r = [O(unwrap(asobj(v))).item() for v in (r if isinstance(r, tuple) else (r,))]
    def mx(x):
        f = list(O(x).reshape(-1)); g = abs(f[0])
        for v in f[1:]: g = symnp.smax(g, abs(v)) if hasattr(symnp, "smax") else max(g, abs(v))
        return g
    for i, (a, w) in enumerate(zip(r, want_err(mod, part, A, mx))): t.equal(f"error {i}", a, w, **kw)

if __name__ == "__main__":
    big = chk.tier == "thorough"
    add = lambda nm, fn, **kw: chk.tasks.append((nm, fn, kw))
    for part, (outs, kind) in LIN.items():
        for Nc in ((None,) if kind != 2 else (1, 2, 3, 4)):
            for n, m, p, T, pT in [(2, 1, 1, 1, None), (2, 1, 2, 3, 2), (1, 1, 1, 4, None), (2, 2, 1, 5, None), (1, 2, 1, 6, None)] + ([(3, 2, 2, 7, 2)] if big else []): add(f"{part} affine symbolic n={n} m={m} T={T} Nc={Nc}", linear, part=part, n=n, m=m, p=p, T=T, pT=pT, Nc=Nc, sym=AFF)
            for T in (1, 2): add(f"{part} all symbolic T={T} Nc={Nc}", linear, part=part, n=1, m=1, p=1, T=T, Nc=Nc, sym=ALL)
    for part in FIN:
        for X, U, T, md in [(2, 2, 1, "sym"), (2, 2, 2, "sym"), (2, 2, 3, 1), (3, 2, 2, 2)] + ([(3, 2, 3, 3), (3, 3, 2, 1)] if big else []):
            if part == "fsc_par_bwfw_2":
                for x0 in range(X): add(f"{part} X={X} U={U} T={T} f {md} x0={x0}", finite, part=part, X=X, U=U, T=T, mode=md, x0=x0)
            else: add(f"{part} X={X} U={U} T={T} f {md}", finite, part=part, X=X, U=U, T=T, mode=md)
    for part in CONT:
        if "parareal" in part:
            add(f"{part} 2 blocks", contlin, part=part, cfgs=[dict(n=1, m=1, p=1, B=2, s=2, k=2, order=11)])
            add(f"{part} fewer iterations", contlin, part=part, cfgs=[dict(n=1, m=1, p=1, B=3, s=2, k=1, order=6), dict(n=1, m=1, p=1, B=1, s=2, k=1, order=6)])
            continue
        par = CONT[part][0] == "par" and not big
        for B, s in ((1, 2), (2, 1), (3, 2)): add(f"{part} n=1 {B} blocks of {s}", contlin, part=part, cfgs=[dict(n=1, m=1, p=1, B=B, s=s)] + ([dict(n=1, m=1, p=1, B=2, s=1, sym=(g,)) for g in (FINAL[:1] if par else FINAL)] if B == 2 else []))
        add(f"{part} n=2", contlin, part=part, cfgs=[dict(n=2, m=1, p=1, B=2, s=1, pT=2)] + ([] if par else [dict(n=2, m=1, p=2, B=1, s=1, sym=(g,)) for g in GROUPS]))
    for part in NL:
        for T, n in ((1, 1), (2, 1), (3, 2)): add(f"{part} T={T} n={n}", nonlin, part=part, T=T, n=n)
    for part in HJ:
        for B, s in ((1, 1), (2, 3), (3, 2)): add(f"{part} {B} blocks of {s}", grid, part=part, blocks=B, steps=s)
    add("tracking model", tracking_model)
    for nx, nu in ((3, 5), (4, 2)): add(f"grid model {nx} {nu}", grid_model, nx=nx, nu=nu)
    for mod, parts in DRIV.items():
        for part in parts:
            if mod in ("contlin_speedtest", "hjb_grid_1d_speedtest"):
                if part in HJ:
                    for j, free in enumerate([((0, 1),), ((1, 1),), ((0, 0), (0, 2)), ((1, 4),), ((1, 2),)]): add(f"driver {part} free {free}", errors, mod=mod, part=part, B=2 + j % 2, s=3 - j % 2, n_iter=1 + j % 3, niter=None, free=free)
                    continue
                for B, s, n_iter, niter in ((2, 3, 1, None), (3, 2, 3, None)) + (((3, 1, 2, 5),) if "parareal" in part else ()): add(f"driver {part} n_iter={n_iter} B={B} niter={niter}", errors, mod=mod, part=part, B=B, s=s, n_iter=n_iter, niter=niter)
            else:
                for P, n_iter, extra in ((1, 1, None), (3, 2, None), (2, 4, None)) + (((2, 3, 7),) if "cond" in part else ()): add(f"driver {part} problems={P} n_iter={n_iter} Nc={extra}", driver, mod=mod, part=part, P=P, n_iter=n_iter, extra=extra)
    chk.main()
