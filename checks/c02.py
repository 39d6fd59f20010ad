"""C02: sequential and batch finite-state control (NumPy) are optimal."""
import importlib, itertools
import numpy as np, z3
from fractions import Fraction
from vlib.run import Check, Inconclusive, mval
from vlib import zsym, symnp
from vlib.zsym import zval, FInt
from checks.fsc_common import *

chk = Check("C02",
    bounds_text="symbolic transition tables, real stage/terminal costs with |cost| <= 1e6 (and up to 1e12 for the batch solver), symbolic initial state; "
                "sizes (X,U,T): see configurations; competing control sequences: all U^T",
    outside="larger state/control/horizon sizes, discount factors other than one, floating-point rounding",
    explanation="FSC source executed on z3 reals and finite-domain integers; assertions: Bellman optimality of every value, attainment by the "
                "returned controls, trajectory feasibility, batch optimality against all control sequences, cost = documented sum")
chk.assumptions = ["costs are reals (rounding not modelled)", "numpy min/argmin/indexing modelled by the symbolic layer"]

@chk.family("fsc")
def replay(case):
    m = importlib.import_module("parallel_control.fsc_np")
    f, L, LT, x0 = conc(case)
    Q, V, uq = dp(f, L, LT)
    sc = scale_of(L, LT)
    part = case.get("part", "all")
    try:
        fsc = m.FSC.checkAndExpand([a.copy() for a in f], [a.copy() for a in L], LT.copy())
        if part in ("all", "seq"):
            us, Vs = fsc.seqBackwardPass()
            e = check_values("sequential backward pass", Vs, us, Q, V, sc)
            if e: return True, e
            mu, mx = fsc.seqForwardPass(x0, us)
            e = check_traj("sequential forward pass", f, L, LT, x0, mu, mx, V[0][x0], sc)
            if e: return True, e
            e2 = [int(x) for x in fsc.seqSimulation(x0, [int(u) for u in mu])]
            if e2 != [int(x) for x in mx]: return True, f"simulation gives {e2}, forward pass {mx}"
        if part in ("all", "batch"):
            bu, bx, bc = fsc.batch_solution(x0)
            e = check_traj("batch solution", f, L, LT, x0, bu, bx, V[0][x0], sc)
            if e: return True, e
            if not close(bc, V[0][x0], sc): return True, f"batch cost {bc}, optimal {float(V[0][x0])}"
        if part in ("all", "cost"):
            xs = [int(v) for v in case["xs"]] if "xs" in case else None
            usq = [int(v) for v in case["us"]] if "us" in case else [0] * len(f)
            if xs is None:
                xs = [x0]
                for k in range(len(f)): xs.append(int(f[k][xs[-1], usq[k]]))
            e2 = [int(v) for v in fsc.seqSimulation(xs[0], usq)]
            exp = [xs[0]]
            for k in range(len(f)): exp.append(int(f[k][exp[-1], usq[k]]))
            if e2 != exp: return True, f"simulation gives {e2}, dynamics give {exp}"
            c = fsc.cost(xs, usq)
            want = float(LT[xs[-1]]) + sum(float(L[k][xs[k], usq[k]]) for k in range(len(f)))
            if not close(c, want, sc): return True, f"cost of x={xs} u={usq} is {c}, should be {want}"
    except Exception as ex:
        return True, f"raises {type(ex).__name__}: {ex}"
    return False, "all parts optimal"

def seq_task(t, X, U, T, mode, ints=False, const=False):
    ft = "sym" if mode == "sym" else (lambda k, x, u: (x * (u + 1) + k * (x + 2 * u) + (mode * (x + 3 * u + 1) // 2)))
    p = Prob(X, U, T, ft, ints=ints, const=const)
    m = symnp.load("fsc_np")
    t.witness(p.asm)
    zsym.reset()
    def body():
        fsc = m.FSC.checkAndExpand(list(p.f), list(p.L), p.LT) if not const else m.FSC.checkAndExpand(p.f[0], p.L[0], p.LT, T=T)
        us, Vs = fsc.seqBackwardPass()
        mu, mx = fsc.seqForwardPass(p.x0, us)
        sx = fsc.seqSimulation(p.x0, list(mu))
        return us, Vs, mu, mx, sx
    Q, V, uq = p.oracle()
    for pc, r, sc in zsym.explore(body, assume=p.asm):
        t.paths += 1
        A = p.asm + pc
        case = lambda mod: p.case(mod, part="seq")
        if isinstance(r, zsym.Raised):
            rr, mod = t.solve(A); 
            if rr == z3.sat: t.report("raised " + repr(r), case(mod))
            continue
        us, Vs, mu, mx, sx = r
        for c, txt in sc: t.prove(txt, c, A, case, prefer=p.prefer)
        if len(us) != T or len(Vs) != T + 1:
            rr, mod = t.solve(A); t.report("length", case(mod)); continue
        for k in range(T + 1):
            t.prove(f"value step {k}", z3.And(*[zval(Vs[k][x]) == zval(V[k][x]) for x in range(X)]), A, case, prefer=p.prefer)
        for k in range(T):
            t.prove(f"control step {k}", z3.And(*[in_range(us[k][x], U) for x in range(X)]), A, case, prefer=p.prefer)
            t.prove(f"control step {k} attains", z3.And(*[zval(pick(Q[k][x], us[k][x])) == zval(V[k][x]) for x in range(X)]), A, case, prefer=p.prefer)
        t.prove("trajectory", traj_claim(p, V, mx, mu, p.x0), A, case, prefer=p.prefer)
        t.prove("simulation", z3.And(*[B(a == b) for a, b in zip(sx, mx)]) if len(sx) == len(mx) else False, A, case, prefer=p.prefer)
        if U ** T <= 16:     # Bellman's principle itself, against every control sequence
            cl = []
            for seq in itertools.product(range(U), repeat=T):
                x = p.x0; c = 0
                for k in range(T):
                    c = c + pick2(p.L[k], x, seq[k]); x = pick2(p.f[k], x, seq[k])
                cl.append(zval(pick(list(Vs[0]), p.x0)) <= zval(c + pick(list(p.LT), x)))
            t.prove("no control sequence is cheaper", z3.And(*cl), A, case, prefer=p.prefer)

def batch_task(t, X, U, T, mode, bound):
    ft = "sym" if mode == "sym" else (lambda k, x, u: (x * (u + 1) + k * (x + 2 * u) + mode * (u + x // 2)))
    p = Prob(X, U, T, ft, bound=bound)
    m = symnp.load("fsc_np")
    t.witness(p.asm)
    zsym.reset()
    Q, V, uq = p.oracle()
    def body():
        fsc = m.FSC.checkAndExpand(list(p.f), list(p.L), p.LT)
        return fsc.batch_solution(p.x0)
    for pc, r, sc in zsym.explore(body, assume=p.asm):
        t.paths += 1
        A = p.asm + pc
        case = lambda mod: p.case(mod, part="batch")
        if isinstance(r, zsym.Raised):
            rr, mod = t.solve(A)
            if rr == z3.sat: t.report("raised " + repr(r), case(mod))
            continue
        bu, bx, bc = r
        for c, txt in sc: t.prove(txt, c, A, case, prefer=p.prefer)
        if len(bu) != T or len(bx) != T + 1:
            rr, mod = t.solve(A); t.report("length", case(mod)); continue
        t.prove("batch cost", zval(bc) == zval(pick(V[0], p.x0)), A, case, prefer=p.prefer)
        t.prove("batch trajectory", traj_claim(p, V, bx, bu, p.x0), A, case, prefer=p.prefer)

def cost_task(t, X, U, T):
    p = Prob(X, U, T, "sym")
    m = symnp.load("fsc_np")
    us = []; asm = list(p.asm)
    for k in range(T):
        u, c = FInt.var(f"u{k}", 0, U); us.append(u); asm.append(c)
    xs = []
    for k in range(T + 1):
        x, c = FInt.var(f"xx{k}", 0, X); xs.append(x); asm.append(c)
    t.witness(asm)
    zsym.reset()
    def body():
        fsc = m.FSC.checkAndExpand(list(p.f), list(p.L), p.LT)
        return fsc.cost(list(xs), list(us)), fsc.seqSimulation(xs[0], list(us))
    for pc, r, sc in zsym.explore(body, assume=asm):
        t.paths += 1
        case = lambda mod: p.case(mod, part="cost", xs=mval(mod, xs), us=mval(mod, us))
        if isinstance(r, zsym.Raised):
            rr, mod = t.solve(asm + pc)
            if rr == z3.sat: t.report("raised " + repr(r), case(mod))
            continue
        c, sx = r
        want = pick(list(p.LT), xs[T])
        for k in range(T): want = want + pick2(p.L[k], xs[k], us[k])
        t.prove("cost", zval(c) == zval(want), asm + pc, case, prefer=p.prefer)
        x = xs[0]; cl = [B(sx[0] == x)]
        for k in range(T):
            x = pick2(p.f[k], x, us[k]); cl.append(B(sx[k + 1] == x))
        t.prove("simulation", z3.And(*cl), asm + pc, case, prefer=p.prefer)

def validate(t):
    rng = np.random.default_rng(t.seed)
    for n in range(40):
        X, U, T = int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(1, 6))
        c = rand_case(rng, X, U, T)
        bad, msg = replay(dict(c, part="all")); t.validated += 1
        if bad: t.report("concrete validation", dict(c, part="all"))

big = chk.tier == "thorough"
for X, U, T in [(2, 2, 1), (2, 2, 2), (2, 2, 3), (3, 2, 2), (2, 3, 2), (1, 3, 2), (3, 1, 3)] + ([(3, 2, 3), (3, 3, 2), (2, 2, 4)] if big else []):
    chk.task(seq_task, name=f"sequential X={X} U={U} T={T} f symbolic", X=X, U=U, T=T, mode="sym")
for X, U, T, md in [(3, 3, 3, 1), (4, 3, 3, 2), (3, 2, 6, 3), (5, 2, 3, 1), (2, 4, 4, 2)] + ([(4, 4, 4, 1), (6, 3, 4, 2), (3, 3, 7, 3)] if big else []):
    chk.task(seq_task, name=f"sequential X={X} U={U} T={T} f table {md}", X=X, U=U, T=T, mode=md)
chk.task(seq_task, name="sequential constant parameters X=2 U=2 T=3", X=2, U=2, T=3, mode="sym", const=True)
chk.task(seq_task, name="sequential integer stage costs X=2 U=2 T=2", X=2, U=2, T=2, mode="sym", ints=True)
for X, U, T, md, b in [(2, 2, 2, "sym", BOUND), (2, 2, 2, "sym", 10 ** 12), (2, 3, 2, "sym", BOUND), (3, 2, 2, "sym", BOUND), (3, 2, 3, 1, BOUND)] + ([(3, 3, 3, 2, BOUND), (2, 2, 4, 1, BOUND)] if big else []):
    chk.task(batch_task, name=f"batch X={X} U={U} T={T} f {md} |cost|<={b:.0e}", X=X, U=U, T=T, mode=md, bound=b)
for X, U, T in [(2, 2, 3), (3, 2, 2), (3, 3, 4)]:
    chk.task(cost_task, name=f"cost/simulation X={X} U={U} T={T}", X=X, U=U, T=T)
chk.task(validate, name="translation validation")
if __name__ == "__main__": chk.main()
