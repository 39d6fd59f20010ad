"""C16: Continuous-time parallel passes equal the sequential ones to fourth order (NumPy)."""
from checks import c15
from checks.c15 import *

chk = Check("C16",
    bounds_text="coefficients smooth in time (all Taylor coefficients that enter are symbolic, one group at a time at n = 2 and all at once at n = m = p = 1), symbolic initial time, arbitrary gains, offsets and value functions for the "
                "forward and forward-backward passes; 1 to 4 blocks of 1 to 3 steps; agreement as power series in the step length through h^4",
    outside="fifth and higher order terms in the step length, larger dimensions, more blocks, the parallel forward pass with the control itself held (its block starts are not)",
    explanation="NumPy source of the parallel passes (initialisation in both directions, associative scan, extraction) executed on truncated power series; outputs asserted equal to the exact solution of the equations the sequential passes follow")
chk.assumptions = c15.chk.assumptions

def lists(D, nm, N): return [D[f"{nm}{k}"] for k in range(N)]
def build():
    out = {}
    for fw in (False, True):
        def bwd(q, P, D, w, B, s, fw=fw): return list(zip(("gain", "offset", "S", "v"), q.parBackwardPass(B, s, forward=fw, **P.kw())))
        out["backward" + (" forward equations" if fw else "")] = ("", bwd, lambda P, D: x_bwd(P))
        def fwd(q, P, D, w, B, s, fw=fw):
            return list(zip(("control", "state"), q.parForwardPass(w(P.x0), [w(a) for a in lists(D, "K", P.N)], [w(a) for a in lists(D, "d", P.N)], B, s, forward=fw, **P.kw())))
        out["forward" + ("" if fw else " backward equations")] = ("Kd", fwd, lambda P, D: x_fwd(P, lists(D, "K", P.N), lists(D, "d", P.N), P.x0))
        def fb(q, P, D, w, B, s, fw=fw):
            l = lambda nm, n: [w(a) for a in lists(D, nm, n)]
            return list(zip(("control", "state"), q.parFwdBwdPass(w(P.x0), l("K", P.N), l("d", P.N), l("S", P.N + 1), l("v", P.N + 1), B, s, forward=fw, **P.kw())))
        def wfb(P, D):
            A, b, C = x_fb(P, zero(P, P.n, P.n), P.x0, zero(P, P.n, P.n))
            return x_comb(P, lists(D, "K", P.N), lists(D, "d", P.N), lists(D, "S", P.N + 1), lists(D, "v", P.N + 1), b, C)
        out["forward-backward" + ("" if fw else " backward equations")] = ("KdSv", fb, wfb)
    def lb(q, P, D, w, B, s): return list(zip(("gain", "S"), q.parBackwardPass(B, s)))
    def wlb(P, D): r = x_bwd(P); return r[0], r[2]
    out["LQR backward"] = ("", lb, wlb)
    for me in ("rk4", "exact"):
        def lbe(q, P, D, w, B, s, me=me): return list(zip(("gain", "S"), q.parBackwardPass(B, s, extract_method=me)))
        out[f"LQR backward extract {me}"] = ("", lbe, wlb)
        def lf(q, P, D, w, B, s, me=me): return list(zip(("control", "state"), q.parForwardPass(w(P.x0), [w(a) for a in lists(D, "K", P.N)], B, s, extract_method=me)))
        out[f"LQR forward extract {me}"] = ("K", lf, lambda P, D: x_fwd(P, lists(D, "K", P.N), [zero(P, P.d["L", 0].shape[1])] * P.N, P.x0))
    def lfb(q, P, D, w, B, s): return list(zip(("control", "state"), q.parFwdBwdPass(w(P.x0), [w(a) for a in lists(D, "K", P.N)], [w(a) for a in lists(D, "S", P.N + 1)], B, s)))
    def wlfb(P, D):
        A, b, C = x_fb(P, zero(P, P.n, P.n), P.x0, zero(P, P.n, P.n)); N = P.N
        return x_comb(P, lists(D, "K", N), [zero(P, P.d["L", 0].shape[1])] * N, lists(D, "S", N + 1), [zero(P, P.n)] * (N + 1), b, C)
    out["LQR forward-backward"] = ("KS", lfb, wlfb)
    return out
PP = build()
def pshapes(n, m, N, names):
    s = {"K": ((m, n), False, N), "d": ((m,), False, N), "S": ((n, n), True, N + 1), "v": ((n,), False, N + 1)}
    return {f"{x}{k}": s[x][:2] for x in names for k in range(s[x][2])}

@chk.family("clqtpar")
def replay(case):
    m = importlib.import_module("parallel_control.clqt_np"); names, f, g = PP[case["part"]]
    def run(P):
        D = {k: fl(case["D_" + k]) for k in pshapes(P.n, P.d["L", 0].shape[1], P.N, names)}
        got = f(P.make(m), P, D, lambda a: np.array(a, dtype=float), int(case["blocks"]), int(case["steps"])); want = g(P, D)
        return [(f"parallel {case['part']} {nm}", a, b) for (nm, a), b in zip(got, want)]
    try: e = orders(run, case)
    except Exception as ex: return True, f"{case['part']} raises {type(ex).__name__}: {ex}"
    return e is not None, e or "agrees"

def run(t, part, n, m, p, B, s, sym=(), symD=True, allsym=False, **o):
    N = B * s; P = CProb(n, m, p, N, sym, lqr=part.startswith("LQR"), allsym=allsym, **o); t.paths += 1
    symnp.EXPM["fn"] = expm(K)
    mod = symnp.load("clqt_np"); names, f, g = PP[part]
    D = {k: P.gen(k, *sh, symm=y, symbolic=symD) for k, (sh, y) in pshapes(n, m, N, names).items()}
    case = lambda env: P.case(env, part=part, blocks=B, steps=s, **{"D_" + k: v for k, v in D.items()})
    q = P.make(mod)
    try: got = f(q, P, D, ar, B, s)
    except (np.linalg.LinAlgError, ValueError, IndexError, TypeError, ZeroDivisionError, AttributeError) as ex:
        t.n_obl += 1; t.report(f"raises {type(ex).__name__}: {ex}", case(Env({x: Fraction(P.base.get(x, 0)) for x in poly.VARS}))); return
    want = g(P, D)
    for (nm, a), b in zip(got, want):
        t.equal(nm + " count", len(a), len(b), case=case, base=P.base)
        for k in range(len(b)): t.equals(f"{part} {nm} {k}", a[k], b[k], case=case, base=P.base)

def validate(t):
    for i, part in enumerate(PP):
        rng = random.Random(t.seed * 100 + i)
        n, m, p, B, s = rng.randint(1, 3), rng.randint(1, 2), rng.randint(1, 2), rng.randint(1, 4), rng.randint(1, 2)
        lq = part.startswith("LQR")
        P = CProb(n, m, p, B * s, (), seed=t.seed + i, lqr=lq, t0=i % 2 == 0 and not lq, dt=i % 3 != 0 and not lq)
        D = {k: P.gen(k, *sh, symm=y, symbolic=False) for k, (sh, y) in pshapes(n, m, B * s, PP[part][0]).items()}
        case = P.case(Env(P.base), part=part, blocks=B, steps=s, **{"D_" + k: v for k, v in D.items()}); t.validated += 1
        bad, msg = replay(dict(case))
        if bad: t.report("concrete validation", case)

def configs(part, big):
    lqr = part.startswith("LQR"); gs = ["F", "L", "X", "U"] if lqr else list(GROUPS)
    if "backward" in part.split("forward")[0]: gs += ["XT"] if lqr else FINAL      # the backward passes use the final cost
    if part.startswith("forward") and "forward-backward" not in part or part.startswith("LQR forward extract"): gs = [g for g in gs if g in ("F", "L", "c")]
    dflt = dict(t0=False, dt=False); o = dflt if lqr else {}
    yield "all symbolic n=1 2x1", dict(n=1, m=1, p=1, B=2, s=1, allsym=True, **o)
    yield "all symbolic n=1 1x2", dict(n=1, m=1, p=1, B=1, s=2, allsym=True, **o)
    yield "all symbolic n=1 2x2 default times", dict(n=1, m=1, p=1, B=2, s=2, sym=("F", "c"), **dflt)
    for g in gs: yield f"{g} symbolic n=2 2x1", dict(n=2, m=1, p=1, B=2, s=1, sym=(g,), symD=False, **o)
    yield "data symbolic n=2 2x2", dict(n=2, m=1, p=2, B=2, s=2, **o)
    yield "states symbolic n=2 3x1", dict(n=2, m=2, p=2, B=3, s=1, symD=False, **o)
    yield "states symbolic n=2 4x1", dict(n=2, m=1, p=1, B=4, s=1, symD=False, pT=1, **dflt)
    yield "states symbolic n=2 2x3", dict(n=2, m=1, p=1, B=2, s=3, symD=False, **o)
    yield "states symbolic n=3 3x2", dict(n=3, m=2, p=2, B=3, s=2, symD=False, **dflt)
if __name__ == "__main__":
    big = chk.tier == "thorough"
    for part in PP:
        for name, kw in configs(part, big): chk.tasks.append((part + " " + name, run, dict(part=part, **kw)))
    chk.task(validate, name="translation validation")
    chk.main()
