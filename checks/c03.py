"""C03: parallel finite-state control (NumPy) equals the sequential one."""
import importlib
import numpy as np, z3
from vlib.run import Check, Inconclusive, mval
from vlib import zsym, symnp
from vlib.zsym import zval, FInt
from vlib.symnp import arr
from checks.fsc_common import *

chk = Check("C03",
    bounds_text="symbolic transition tables (or stated tables for larger sizes), real costs |cost| <= 1e6, every initial state, every policy for the forward pass; sizes in configurations",
    outside="larger sizes and horizons, costs comparable with the 1e20 infinity constant, tied optimal trajectories in the forward-backward passes, rounding",
    explanation="FSC parallel passes executed on z3 reals; value functions asserted equal to Bellman's recursion, controls attain them, forward pass equals the policy "
                "roll-out for every policy, forward-backward trajectories optimal when unique")
chk.assumptions = ["costs are reals (rounding not modelled)", "costs far below the infinity constant"]

@chk.family("fscpar")
def replay(case):
    m = importlib.import_module("parallel_control.fsc_np")
    f, L, LT, x0 = conc(case)
    Q, V, uq = dp(f, L, LT); sc = scale_of(L, LT); part = case.get("part", "all"); T = len(f)
    try:
        fsc = m.FSC.checkAndExpand([a.copy() for a in f], [a.copy() for a in L], LT.copy())
        us, Vs = fsc.parBackwardPass()
        if part in ("all", "bwd"):
            e = check_values("parallel backward pass", Vs, us, Q, V, sc)
            if e: return True, e
        if part in ("all", "fwd"):
            pol = [np.array([int(v) for v in r]) for r in case["pol"]] if "pol" in case else us
            mu, mx = fsc.parForwardPass(x0, pol)
            xs = [x0]; uu = []
            for k in range(T): uu.append(int(pol[k][xs[-1]])); xs.append(int(f[k][xs[-1], uu[-1]]))
            if [int(v) for v in mx] != xs or [int(v) for v in mu] != uu:
                return True, f"parallel forward pass gives x={list(map(int,mx))} u={list(map(int,mu))}, the policy rolls out to x={xs} u={uu}"
        if uq[0][x0]:
            for nm, fn in (("fb1", fsc.parFwdBwdPass), ("fb2", fsc.parFwdBwdPass2)):
                if part not in ("all", nm): continue
                mu, mx = fn(x0, us, Vs)
                e = check_traj("forward-backward pass " + nm, f, L, LT, x0, mu, mx, V[0][x0], sc)
                if e: return True, e
    except Exception as ex:
        return True, f"raises {type(ex).__name__}: {ex}"
    return False, "all parts agree"

def mkprob(X, U, T, mode, ints=False, x0="sym"):
    ft = "sym" if mode == "sym" else (lambda k, x, u: (x * (u + 1) + k * (x + 2 * u) + (mode * (x + 3 * u + 1) // 2)))
    return Prob(X, U, T, ft, ints=ints, x0=x0)

def run(t, p, body, case, asm):
    """explore body; yields (assumptions, result) of the normal paths"""
    for pc, r, sc in zsym.explore(body, assume=asm):
        t.paths += 1
        A = asm + pc
        if isinstance(r, zsym.Raised):
            rr, mod = t.solve(A)
            if rr == z3.sat: t.report("raised " + repr(r), case(mod))
            continue
        for c, txt in sc: t.prove(txt, c, A, case, prefer=p.prefer)
        yield A, r

def bwd(t, X, U, T, mode, ints=False):
    p = mkprob(X, U, T, mode, ints); m = symnp.load("fsc_np"); t.witness(p.asm); zsym.reset()
    Q, V, uq = p.oracle()
    case = lambda mod: p.case(mod, part="bwd")
    for A, (us, Vs) in run(t, p, lambda: m.FSC.checkAndExpand(list(p.f), list(p.L), p.LT).parBackwardPass(), case, p.asm):
        if len(us) != T or len(Vs) != T + 1:
            rr, mod = t.solve(A); t.report("length", case(mod)); continue
        for k in range(T + 1):
            for x in range(X): t.prove(f"value step {k} state {x}", zval(Vs[k][x]) == zval(V[k][x]), A, case, prefer=p.prefer)
        for k in range(T):
            # attainment relative to the exact value functions just proved
            eq = z3.And(*[zval(Vs[k + 1][x]) == zval(V[k + 1][x]) for x in range(X)])
            for x in range(X):
                t.prove(f"control step {k} state {x}", z3.And(in_range(us[k][x], U), zval(pick(Q[k][x], us[k][x])) == zval(V[k][x])), A, case, prefer=p.prefer)

def fwd(t, X, U, T, mode):
    p = mkprob(X, U, T, mode); m = symnp.load("fsc_np")
    asm = list(p.asm); pol = []
    for k in range(T):
        o = np.empty(X, dtype=object)
        for x in range(X):
            o[x], c = FInt.var(f"pol{k}_{x}", 0, U); asm.append(c)
        pol.append(arr(o, 'i'))
    t.witness(asm); zsym.reset()
    case = lambda mod: p.case(mod, part="fwd", pol=[mval(mod, np.asarray(q)) for q in pol])
    for A, (mu, mx) in run(t, p, lambda: m.FSC.checkAndExpand(list(p.f), list(p.L), p.LT).parForwardPass(p.x0, list(pol)), case, asm):
        if len(mu) != T or len(mx) != T + 1:
            rr, mod = t.solve(A); t.report("length", case(mod)); continue
        x = p.x0
        t.prove("initial state", B(mx[0] == x), A, case, prefer=p.prefer)
        for k in range(T):
            u = pick(list(pol[k]), x); x = pick2(p.f[k], x, u)
            t.prove(f"step {k}", z3.And(B(mu[k] == u), B(mx[k + 1] == x)), A, case, prefer=p.prefer)

def fb(t, X, U, T, mode, x0, which, ints=False):
    p = mkprob(X, U, T, mode, ints, x0=x0); m = symnp.load("fsc_np"); zsym.reset()
    Q, V, uq = p.oracle()
    asm = p.asm + [zsym.bexpr(uq[0][x0])]
    t.witness(asm)
    case = lambda mod: p.case(mod, part=which)
    def body():
        fsc = m.FSC.checkAndExpand(list(p.f), list(p.L), p.LT)
        us, Vs = fsc.parBackwardPass()
        return (fsc.parFwdBwdPass if which == "fb1" else fsc.parFwdBwdPass2)(x0, us, Vs)
    for A, (mu, mx) in run(t, p, body, case, asm):
        if len(mu) != T or len(mx) != T + 1:
            rr, mod = t.solve(A); t.report("length", case(mod)); continue
        # under uniqueness the optimal trajectory is the roll-out of any optimal policy
        x = x0
        t.prove("initial state", B(mx[0] == x), A, case, prefer=p.prefer)
        for k in range(T):
            u = symnp.zsym_argmin([pick([Q[k][s][w] for s in range(X)], x) for w in range(U)])
            x2 = pick2(p.f[k], x, u)
            t.prove(f"step {k}", z3.And(B(mu[k] == u), B(mx[k + 1] == x2)), A, case, prefer=p.prefer)
            x = x2

def validate(t):
    rng = np.random.default_rng(t.seed)
    for n in range(40):
        X, U, T = int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(1, 9))
        c = rand_case(rng, X, U, T, int_costs=bool(n % 3 == 0))
        bad, msg = replay(dict(c, part="all")); t.validated += 1
        if bad: t.report("concrete validation", dict(c, part="all"))

big = chk.tier == "thorough"
for X, U, T in [(2, 2, 1), (2, 2, 2), (2, 2, 3), (3, 2, 2), (2, 3, 2), (1, 2, 3), (3, 1, 3)] + ([(3, 2, 3), (2, 2, 4), (3, 3, 2)] if big else []):
    chk.task(bwd, name=f"backward X={X} U={U} T={T} f symbolic", X=X, U=U, T=T, mode="sym")
for X, U, T, md in [(3, 3, 4, 1), (4, 2, 3, 2), (3, 2, 7, 3), (2, 4, 5, 1)] + ([(4, 3, 5, 1), (3, 2, 9, 2)] if big else []):
    chk.task(bwd, name=f"backward X={X} U={U} T={T} f table {md}", X=X, U=U, T=T, mode=md)
chk.task(bwd, name="backward integer stage costs X=2 U=2 T=2", X=2, U=2, T=2, mode="sym", ints=True)
for X, U, T in [(2, 2, 1), (2, 2, 4), (3, 2, 3), (3, 2, 5), (4, 3, 2)] + ([(3, 3, 7), (4, 2, 6)] if big else []):
    chk.task(fwd, name=f"forward X={X} U={U} T={T} any policy", X=X, U=U, T=T, mode="sym")
for w in ("fb1", "fb2"):
    for X, U, T, md in [(2, 2, 1, "sym"), (2, 2, 2, "sym"), (3, 2, 2, 1), (3, 2, 3, 2), (2, 2, 5, 1), (2, 3, 3, 3)] + ([(2, 2, 3, "sym"), (4, 2, 4, 1), (3, 3, 3, 1)] if big else []):
        for x0 in range(X):
            chk.task(fb, name=f"{w} X={X} U={U} T={T} f {md} x0={x0}", X=X, U=U, T=T, mode=md, x0=x0, which=w)
chk.task(fb, name="fb1 integer costs", X=2, U=2, T=2, mode=1, x0=1, which="fb1", ints=True)
chk.task(fb, name="fb2 integer costs", X=2, U=2, T=2, mode=1, x0=1, which="fb2", ints=True)
chk.task(validate, name="translation validation")
if __name__ == "__main__": chk.main()
