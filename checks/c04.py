"""C04: TensorFlow finite-state control is optimal and equals the NumPy one."""
import importlib
import numpy as np, z3
from vlib.run import Check, Inconclusive, mval
from vlib import zsym, symnp
from vlib.zsym import zval, FInt
from vlib.symnp import arr
from checks.fsc_common import *

chk = Check("C04",
    bounds_text="symbolic transition tables (or stated tables), real costs |cost| <= 1e6, every initial state, every policy for the forward passes, parallelism limits from the horizon up; sizes in configurations",
    outside="larger sizes and horizons, costs comparable with the 1e20 infinity constant, tied optimal trajectories in the forward-backward pass, rounding, TensorFlow kernels themselves",
    explanation="the tf.functions are traced to their graphs (tf.scan loops, tfp scan_associative, gather/scatter) and every graph operation is executed on z3 terms; values asserted equal to "
                "Bellman's recursion, controls attain them, trajectories feasible and optimal")
chk.assumptions = ["TensorFlow kernels follow their documented semantics", "costs are reals (rounding not modelled)"]
def _imp():
    global tfsym
    from vlib import tfsym
    for m in ("fsc_tf",): tfsym.module(m)
chk.setup.append(_imp)

@chk.family("fsctf")
def replay(case):
    _imp()
    import tensorflow as tf
    m = importlib.import_module("parallel_control.fsc_tf"); fn = importlib.import_module("parallel_control.fsc_np")
    f, L, LT, x0 = conc(case)
    L = [np.asarray(l, dtype=float) for l in L]
    Q, V, uq = dp(f, L, LT); sc = scale_of(L, LT); part = case.get("part", "all"); T = len(f)
    try:
        fs, Ls, LTt = m.fsc_np_to_tf(fn.FSC.checkAndExpand([a.copy() for a in f], [a.copy() for a in L], LT.copy()))
        mp = dict(max_parallel=int(case["mp"])) if case.get("mp") else {}
        x0t = tf.constant(x0, dtype=tf.int32)
        if part in ("all", "seq"):
            us, Vs = m.fsc_seq_backwardpass(fs, Ls, LTt)
            e = check_values("sequential backward pass", list(Vs.numpy()), list(us.numpy()), Q, V, sc)
            if e: return True, e
        us, Vs = m.fsc_par_backwardpass(fs, Ls, LTt, **mp)
        if part in ("all", "par"):
            e = check_values("parallel backward pass", list(Vs.numpy()), list(us.numpy()), Q, V, sc)
            if e: return True, e
        if part in ("all", "fwd"):
            pol = np.array([[int(v) for v in r] for r in case["pol"]]) if "pol" in case else us.numpy()
            xs = [x0]; uu = []
            for k in range(T): uu.append(int(pol[k][xs[-1]])); xs.append(int(f[k][xs[-1], uu[-1]]))
            pt = tf.constant(pol, dtype=tf.int32)
            mx, mu = m.fsc_seq_forwardpass(x0t, fs, pt)
            if mx.numpy().tolist() != xs or mu.numpy().tolist() != uu: return True, f"sequential forward pass gives {mx.numpy().tolist()}, {mu.numpy().tolist()}; the policy rolls out to {xs}, {uu}"
            mu, mx = m.fsc_par_forwardpass(x0t, fs, pt, **mp)
            if mx.numpy().tolist() != xs or mu.numpy().tolist() != uu: return True, f"parallel forward pass gives {mx.numpy().tolist()}, {mu.numpy().tolist()}; the policy rolls out to {xs}, {uu}"
        if part in ("all", "fb") and uq[0][x0]:
            mu, mx = m.fsc_par_fwdbwdpass(x0t, fs, Ls, us, Vs, **mp)
            e = check_traj("forward-backward pass", f, L, LT, x0, mu.numpy(), mx.numpy(), V[0][x0], sc)
            if e: return True, e
    except Exception as ex:
        return True, f"raises {type(ex).__name__}: {str(ex)[-300:]}"
    return False, "all parts agree"

def stack(l): return arr(np.stack([np.asarray(symnp.unwrap(a)) for a in l]), object.__getattribute__(l[0], "_kind"))
def ia(a): return arr(np.asarray(a), 'i')
def fa(a): return arr(np.asarray(a), 'f')

def mkprob(X, U, T, mode, x0="sym"):
    ft = "sym" if mode == "sym" else (lambda k, x, u: (x * (u + 1) + k * (x + 2 * u) + (mode * (x + 3 * u + 1) // 2)))
    return Prob(X, U, T, ft, x0=x0)

def run(t, p, body, case, asm):
    for pc, r, sc in zsym.explore(body, assume=asm):
        t.paths += 1
        A = asm + pc
        if isinstance(r, zsym.Raised):
            rr, mod = t.solve(A)
            if rr == z3.sat: t.report("raised " + repr(r), case(mod))
            continue
        for c, txt in sc: t.prove(txt, c, A, case, prefer=p.prefer)
        yield A, r

def kw(mp): return dict(max_parallel=mp) if mp else {}

def tensors(p):
    """through the repository's own conversion"""
    c = tfsym.load_shim("fsc_tf"); n = symnp.load("fsc_np")
    return c.fsc_np_to_tf(n.FSC.checkAndExpand(list(p.f), list(p.L), p.LT))

def bwd(t, which, X, U, T, mode, mp=None):
    p = mkprob(X, U, T, mode); t.witness(p.asm); zsym.reset()
    Q, V, uq = p.oracle()
    case = lambda mod: p.case(mod, part=which, mp=mp)
    def body():
        fs, Ls, LT = tensors(p)
        return tfsym.repo("fsc_tf", "fsc_seq_backwardpass" if which == "seq" else "fsc_par_backwardpass", fs, Ls, LT, **(kw(mp) if which == "par" else {}))
    for A, (us, Vs) in run(t, p, body, case, p.asm):
        if us.shape != (T, X) or Vs.shape != (T + 1, X):
            rr, mod = t.solve(A); t.report("shape", case(mod)); continue
        for k in range(T + 1):
            for x in range(X): t.prove(f"value step {k} state {x}", zval(Vs[k][x]) == zval(V[k][x]), A, case, prefer=p.prefer)
        for k in range(T):
            for x in range(X):
                t.prove(f"control step {k} state {x}", z3.And(in_range(us[k][x], U), zval(pick(Q[k][x], us[k][x])) == zval(V[k][x])), A, case, prefer=p.prefer)

def fwd(t, which, X, U, T, mode, mp=None):
    p = mkprob(X, U, T, mode); asm = list(p.asm)
    pol = np.empty((T, X), dtype=object)
    for k in range(T):
        for x in range(X):
            pol[k, x], c = FInt.var(f"pol{k}_{x}", 0, U); asm.append(c)
    t.witness(asm); zsym.reset()
    case = lambda mod: p.case(mod, part="fwd", mp=mp, pol=mval(mod, pol))
    def body():
        fs, Ls, LT = tensors(p)
        if which == "seq":
            mx, mu = tfsym.repo("fsc_tf", "fsc_seq_forwardpass", p.x0, fs, ia(pol)); return mu, mx
        return tfsym.repo("fsc_tf", "fsc_par_forwardpass", p.x0, fs, ia(pol), **kw(mp))
    for A, (mu, mx) in run(t, p, body, case, asm):
        if mu.shape != (T,) or mx.shape != (T + 1,):
            rr, mod = t.solve(A); t.report("shape", case(mod)); continue
        x = p.x0
        t.prove("initial state", B(sc_(mx[0]) == x), A, case, prefer=p.prefer)
        for k in range(T):
            u = pick(list(pol[k]), x); x = pick2(p.f[k], x, u)
            t.prove(f"step {k}", z3.And(B(sc_(mu[k]) == u), B(sc_(mx[k + 1]) == x)), A, case, prefer=p.prefer)
def sc_(v): return int(v) if isinstance(v, np.generic) else v

def fb(t, X, U, T, mode, x0, mp=None):
    p = mkprob(X, U, T, mode, x0=x0); zsym.reset()
    Q, V, uq = p.oracle()
    asm = p.asm + [zsym.bexpr(uq[0][x0])]
    t.witness(asm)
    case = lambda mod: p.case(mod, part="fb", mp=mp)
    def body():
        fs, Ls, LT = tensors(p)
        us, Vs = tfsym.repo("fsc_tf", "fsc_par_backwardpass", fs, Ls, LT, **kw(mp))
        return tfsym.repo("fsc_tf", "fsc_par_fwdbwdpass", x0, fs, Ls, ia(us), fa(Vs), **kw(mp))
    for A, (mu, mx) in run(t, p, body, case, asm):
        if mu.shape != (T,) or mx.shape != (T + 1,):
            rr, mod = t.solve(A); t.report("shape", case(mod)); continue
        x = x0
        t.prove("initial state", B(sc_(mx[0]) == x), A, case, prefer=p.prefer)
        for k in range(T):
            u = symnp.zsym_argmin([pick([Q[k][s][w] for s in range(X)], x) for w in range(U)])
            x2 = pick2(p.f[k], x, u)
            t.prove(f"step {k}", z3.And(B(sc_(mu[k]) == u), B(sc_(mx[k + 1]) == x2)), A, case, prefer=p.prefer)
            x = x2

def validate(t):
    rng = np.random.default_rng(t.seed)
    for n in range(8):
        X, U, T = int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(1, 9))
        c = rand_case(rng, X, U, T)
        bad, msg = replay(dict(c, part="all", mp=T if n % 2 else None)); t.validated += 1
        if bad: t.report("concrete validation", dict(c, part="all", mp=T if n % 2 else None))

big = chk.tier == "thorough"
def add(fn, name, **k): chk.tasks.append((name, fn, k))
for w in ("seq", "par"):
    for X, U, T, mp in [(2, 2, 1, 1), (2, 2, 1, None), (2, 2, 2, 2), (2, 2, 3, 3), (3, 2, 2, None), (2, 3, 2, 2), (1, 2, 3, 4), (3, 1, 3, 3)] + ([(3, 2, 3, 3), (2, 2, 4, 4), (3, 3, 2, 2)] if big else []):
        add(bwd, f"{w} backward X={X} U={U} T={T} f symbolic mp={mp}", which=w, X=X, U=U, T=T, mode="sym", mp=mp)
    for X, U, T, md, mp in [(3, 3, 4, 1, 4), (4, 2, 3, 2, 3), (3, 2, 6, 3, 6), (2, 2, 7, 1, 7)] + ([(4, 3, 5, 1, 5), (3, 2, 9, 2, 9)] if big else []):
        add(bwd, f"{w} backward X={X} U={U} T={T} f table {md} mp={mp}", which=w, X=X, U=U, T=T, mode=md, mp=mp)
    for X, U, T, mp in [(2, 2, 1, 1), (2, 2, 4, 4), (3, 2, 3, None), (3, 2, 4, 5), (4, 3, 2, 2)] + ([(3, 3, 6, 6)] if big else []):
        add(fwd, f"{w} forward X={X} U={U} T={T} any policy mp={mp}", which=w, X=X, U=U, T=T, mode="sym", mp=mp)
for X, U, T, md, mp in [(2, 2, 1, "sym", 1), (2, 2, 2, "sym", 2), (3, 2, 2, 1, 2), (3, 2, 3, 2, None), (2, 2, 5, 1, 5), (2, 3, 3, 3, 3)] + ([(2, 2, 3, "sym", 3), (4, 2, 4, 1, 4), (3, 3, 3, 1, 3)] if big else []):
    for x0 in range(X):
        add(fb, f"forward-backward X={X} U={U} T={T} f {md} x0={x0} mp={mp}", X=X, U=U, T=T, mode=md, x0=x0, mp=mp)
add(validate, "translation validation")
if __name__ == "__main__": chk.main()
