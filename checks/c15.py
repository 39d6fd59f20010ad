"""C15: Continuous-time sequential passes follow the exact equations to fourth order (NumPy)."""
from vlib.run import Check, Env, mval
from checks.clqt_common import *

chk = Check("C15",
    bounds_text="coefficients smooth in time (all Taylor coefficients that enter are symbolic, one group at a time at n = 2 and all groups at once at n = m = p = 1), symbolic initial time, terminal values, gains and initial state; "
                "1 to 4 steps; agreement as power series in the step length through h^4 (h^6 for method 'exact')",
    outside="terms of fifth and higher order in the step length for Runge-Kutta, larger dimensions, more steps, coefficients that are not smooth within a step",
    explanation="NumPy source executed on truncated power series in the step length with exact rational-function coefficients; outputs asserted equal to the exact solution of the Riccati, closed-loop and forward value equations obtained by Picard iteration on polynomials")
chk.assumptions = ["floating point modelled as exact rational arithmetic", "matrix exponential modelled as its power series", "factorisations followed by solves modelled as exact solutions"]

def ar(x): return arr(np.array(x, copy=True))
def al(l): return [ar(a) for a in l]
# each part: inputs (name, shape fn, symmetric) and what is run: real(P, q, data, wrap) -> outputs, want(P, data)
def Fn(a): return fl(a)
def parts():
    """name -> (data names, run(q, P, D, w) -> [(name, got)], want(P, D) -> [lists])"""
    def bwd(q, P, D, w):
        kw = P.kw()
        if "S" in D: kw.update(S=w(D["S"]), v=w(D["v"]))
        r = q.seqBackwardPass(P.N, **kw); return list(zip(("gain", "offset", "S", "v"), r))
    def wbwd(P, D): return x_bwd(P, D.get("S"), D.get("v"))
    def fwd(zoh):
        def f(q, P, D, w):
            n = P.N; Ks = [w(D[f"K{k}"]) for k in range(n)]; ds = [w(D[f"d{k}"]) for k in range(n)]
            return list(zip(("control", "state"), q.seqForwardPass(w(P.x0), Ks, ds, u_zoh=zoh, **P.kw())))
        def g(P, D): return x_fwd(P, [D[f"K{k}"] for k in range(P.N)], [D[f"d{k}"] for k in range(P.N)], P.x0, zoh)
        return f, g
    def fb(q, P, D, w):
        kw = P.kw()
        if "C" in D: kw.update(A=w(D["A"]), b=w(D["b"]), C=w(D["C"]))
        return list(zip(("A", "b", "C"), q.seqFwdBwdPass(w(P.x0), P.N, **kw)))
    def wfb(P, D): return x_fb(P, D.get("A", zero(P, P.n, P.n)), D.get("b", P.x0), D.get("C", zero(P, P.n, P.n)))
    def comb(q, P, D, w):
        a, b, c, d = q.seqBackwardPass(P.N, **P.kw()); A, B, C = q.seqFwdBwdPass(w(P.x0), P.N, **P.kw())
        return list(zip(("control", "state"), q.combineForwardBackward(a, b, c, d, A, B, C)))
    def wcomb(P, D): return x_opt(P)
    z, wz = fwd(True); nz, wnz = fwd(False)
    return {"backward": (("S", "v"), bwd, wbwd), "backward default": ((), bwd, wbwd), "forward": (("K", "d"), nz, wnz), "forward held": (("K", "d"), z, wz),
            "forward value": (("A", "b", "C"), fb, wfb), "forward value default": ((), fb, wfb), "combined": ((), comb, wcomb)}
PARTS = parts()
def lqrparts():
    def kw(P): return {} if P.dt is None else {"dt": P.dt}
    def bwd(me):
        def f(q, P, D, w):
            k = kw(P)
            if me: k["method"] = me
            if "S" in D: k["S"] = w(D["S"])
            return list(zip(("gain", "S"), q.seqBackwardPass(P.N, **k)))
        def g(P, D):
            r = x_bwd(P, D.get("S")); return r[0], r[2]
        return f, g
    def fwd(me, zoh):
        def f(q, P, D, w):
            k = kw(P)
            if me: k["method"] = me
            return list(zip(("control", "state"), q.seqForwardPass(w(P.x0), [w(D[f"K{i}"]) for i in range(P.N)], u_zoh=zoh, **k)))
        def g(P, D): return x_fwd(P, [D[f"K{i}"] for i in range(P.N)], [zero(P, P.d["L", 0].shape[1])] * P.N, P.x0, zoh)
        return f, g
    def fb(q, P, D, w):
        k = kw(P)
        if "C" in D: k.update(A=w(D["A"]), b=w(D["b"]), C=w(D["C"]))
        return list(zip(("A", "b", "C"), q.seqFwdBwdPass(w(P.x0), P.N, **k)))
    def wfb(P, D): return x_fb(P, D.get("A", zero(P, P.n, P.n)), D.get("b", P.x0), D.get("C", zero(P, P.n, P.n)))
    def comb(q, P, D, w):
        a, c = q.seqBackwardPass(P.N, **kw(P)); A, B, C = q.seqFwdBwdPass(w(P.x0), P.N, **kw(P))
        return list(zip(("control", "state"), q.combineForwardBackward(a, c, A, B, C)))
    out = {}
    for me, nm in ((None, "rk4"), ("exact", "exact")):
        f, g = bwd(me); out[f"LQR backward {nm}"] = (("S",), f, g); out[f"LQR backward {nm} default"] = ((), f, g)
        for zoh in (False, True):
            f, g = fwd(me, zoh); out[f"LQR forward {nm}" + (" held" if zoh else "")] = (("K",), f, g)
    out["LQR forward value"] = (("A", "b", "C"), fb, wfb); out["LQR forward value default"] = ((), fb, wfb); out["LQR combined"] = ((), comb, lambda P, D: x_opt(P))
    return out
PARTS.update(lqrparts())

def shapes(n, m, N, names):
    s = {"S": ((n, n), True), "v": ((n,), False), "A": ((n, n), False), "b": ((n,), False), "C": ((n, n), True)}
    out = {}
    for x in names:
        if x in s: out[x] = s[x]
        elif x == "K": out.update({f"K{k}": ((m, n), False) for k in range(N)})
        else: out.update({f"d{k}": ((m,), False) for k in range(N)})
    return out

@chk.family("clqt")
def replay(case):
    m = importlib.import_module("parallel_control.clqt_np"); names, f, g = PARTS[case["part"]]
    def run(P):
        D = {k: fl(case["D_" + k]) for k in shapes(P.n, P.d["L", 0].shape[1], P.N, names)}
        got = f(P.make(m), P, D, lambda a: np.array(a, dtype=float)); want = g(P, D)
        return [(case["part"] + " " + nm, a, b) for (nm, a), b in zip(got, want)]
    try: e = orders(run, case, "exact" in case["part"])
    except Exception as ex: return True, f"{case['part']} raises {type(ex).__name__}: {ex}"
    return e is not None, e or "agrees"

def expm(order):
    def f(A):
        A = symnp.unwrap(symnp.asobj(A)); n = A.shape[0]; S = eye(n); M = eye(n)
        for k in range(1, order + 1): M = mm(M, A) * Fraction(1, k); S = S + M
        return arr(S)
    return f
def run(t, part, n, m, p, N, sym=(), symD=True, allsym=False, **o):
    order = 6 if "exact" in part else K
    P = CProb(n, m, p, N, sym, lqr=part.startswith("LQR"), order=order, allsym=allsym, **o); t.paths += 1
    symnp.EXPM["fn"] = expm(order)
    mod = symnp.load("clqt_np"); names, f, g = PARTS[part]
    D = {k: P.gen(k, *s, symm=y, symbolic=symD) for k, (s, y) in shapes(n, m, N, names).items()}
    case = lambda env: P.case(env, part=part, **{"D_" + k: v for k, v in D.items()})
    q = P.make(mod)
    try: got = f(q, P, D, ar)
    except (np.linalg.LinAlgError, ValueError, IndexError, TypeError, ZeroDivisionError, AttributeError) as ex:
        t.n_obl += 1; t.report(f"raises {type(ex).__name__}: {ex}", case(Env({x: Fraction(P.base.get(x, 0)) for x in poly.VARS}))); return
    want = g(P, D)
    for (nm, a), b in zip(got, want):
        t.equal(nm + " count", len(a), len(b), case=case, base=P.base)
        for k in range(len(b)): t.equals(f"{part} {nm} {k}", a[k], b[k], case=case, base=P.base)

def hjb(t, n, m, p):
    """the equations state optimality: with the value function of S, v the running cost plus the derivative of the value equals
    a square in the control-cost metric, up to a term free of state and control"""
    P = CProb(n, m, p, 1, allsym=n == 1, sym=("F",)); poly.set_trunc(); d = {g: P.d[g, 0] for g in GROUPS}
    S = P.gen("S", n, n, symm=True); v = P.gen("v", n); x = P.gen("x", n); u = P.gen("u", m)
    d["W"] = mm(d["L"], solve(d["U"], d["L"].T)); dS, dv = riccati(d, [S, v])
    hf = Fraction(1, 2); e = mm(d["H"], x) - d["r"]
    tot = hf * mm(e, d["X"], e) + hf * mm(u, d["U"], u) + hf * mm(x, dS, x) - mm(dv, x) + mm(mm(S, x) - v, mm(d["F"], x) + mm(d["L"], u) + d["c"])
    q = u + mm(solve(d["U"], d["L"].T), mm(S, x) - v)
    free = hf * mm(d["r"], d["X"], d["r"]) - mm(v, d["c"]) - hf * mm(v, d["W"], v)
    t.equal("running cost and value derivative", tot, hf * mm(q, d["U"], q) + free, base=P.base)

def validate(t):
    """concrete problems of random sizes: the real code against fine integration"""
    for s in range(len(PARTS)):
        part = list(PARTS)[s]; rng = random.Random(t.seed * 100 + s)
        n, m, p, N = rng.randint(1, 3), rng.randint(1, 2), rng.randint(1, 2), rng.randint(1, 3)
        P = CProb(n, m, p, N, (), seed=t.seed + s, lqr=part.startswith("LQR"), t0=s % 2 == 0, dt=s % 3 != 0)
        D = {k: P.gen(k, *sh, symm=y, symbolic=False) for k, (sh, y) in shapes(n, m, N, PARTS[part][0]).items()}
        case = P.case(Env(P.base), part=part, **{"D_" + k: v for k, v in D.items()}); t.validated += 1
        bad, msg = replay(dict(case))
        if bad: t.report("concrete validation", case)

def configs(part, big):
    lqr = part.startswith("LQR"); gs = ("F", "L", "X", "U") if lqr else GROUPS
    if "default" in part or "combined" in part: gs = gs + (("XT",) if lqr else FINAL) if lqr else list(gs) + FINAL
    if "forward value" in part: gs = [g for g in gs if g not in FINAL]
    elif "forward" in part: gs = [g for g in gs if g in ("F", "L", "c")]
    yield "all symbolic n=1 N=2", dict(n=1, m=1, p=1, N=2, allsym=True)
    yield "all symbolic n=1 N=1 default times", dict(n=1, m=1, p=1, N=1, allsym=True, t0=False, dt=False)
    for g in gs: yield f"{g} symbolic n=2", dict(n=2, m=1, p=1, N=1, sym=(g,), symD=False)
    for g in gs[:1]: yield f"{g} symbolic n=2 m=2 p=2 default times", dict(n=2, m=2, p=2, N=2, sym=(g,), symD=False, t0=False, dt=False)
    yield "data symbolic n=2 m=2 p=2 N=2", dict(n=2, m=2, p=2, N=2)
    yield "data symbolic n=2 N=3", dict(n=2, m=1, p=2, N=3, pT=1, t0=False)
    yield "states symbolic n=3 N=2", dict(n=3, m=2, p=2, N=2, symD=False, dt=False)
if __name__ == "__main__":
    big = chk.tier == "thorough"
    for part in PARTS:
        for name, kw in configs(part, big): chk.tasks.append((part + " " + name, run, dict(part=part, **kw)))
    chk.task(hjb, name="optimality of the equations n=1", n=1, m=1, p=1); chk.task(hjb, name="optimality of the equations n=2", n=2, m=1, p=1)
    chk.task(validate, name="translation validation")
    chk.main()
