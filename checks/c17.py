"""C17: TensorFlow continuous-time LQT equals the NumPy one."""
from checks import c15
from checks.c15 import *

chk = Check("C17",
    bounds_text="coefficients smooth in time (all Taylor coefficients that enter are symbolic, one group at a time at n = 2, all at once at n = m = p = 1), symbolic times, gains, offsets, value functions and initial state; 1 to 4 blocks of 1 to 3 steps; "
                "agreement as power series in the step length through h^5",
    outside="larger dimensions and step counts, coefficients above h^5, parallelism limits below the number of blocks, rounding, TensorFlow kernels themselves",
    explanation="the tf.functions are traced to their graphs and executed on truncated power series with exact rational-function coefficients; outputs asserted equal to those of the NumPy source executed on the same symbolic data")
chk.assumptions = ["TensorFlow kernels follow their documented semantics", "floating point modelled as exact rational arithmetic"]
def _imp():
    global tfsym
    from vlib import tfsym
    tfsym.module("clqt_tf")
chk.setup.append(_imp)
ORD = 5

class Sym:
    """runs tf code on symbolic data: values are passed as arguments of the traced function"""
    def __init__(self, P):
        self.P = P
    def go(self, body, vals, P, key=None):
        keys = sorted(vals)
        ck = sorted(k for k in P.d)
        t0 = P.t0 if P.t0 is not None else 0.0
        def fn(*a):
            import tensorflow as tf
            v = dict(zip(keys, a[:len(keys)])); d = dict(zip(ck, a[len(keys):len(keys) + len(ck)])); off = a[-1]
            return body(Fs(d, off), {**v, **{g: d[g, 0] for g in FINAL}})
        return tfsym.run(fn, *[self.lf(vals[k]) for k in keys], *[arr(np.array(P.d[k], copy=True)) for k in ck], self.lf(t0), key=key)
    def lf(self, x):
        if isinstance(x, (list, tuple)): return arr(np.stack([np.asarray(symnp.unwrap(symnp.asobj(i))) for i in x]))
        return arr(np.array(x, dtype=object, copy=True)) if isinstance(x, np.ndarray) else x
class Conc:
    def go(self, body, vals, P):
        import tensorflow as tf
        d = {k: tf.constant(v) for k, v in P.d.items()}
        return body(Fs(d, tf.constant(P.t0 or 0.0, dtype=tf.float64)), {**{k: tf.constant(np.array(v, dtype=float)) for k, v in vals.items()}, **{g: d[g, 0] for g in FINAL}})
def Fs(d, off):
    def mk(g):
        def f(t):
            s = t - off; r = d[g, 3]
            for i in (2, 1, 0): r = r * s + d[g, i]
            return r
        return f
    return {g: mk(g) for g in GROUPS}
ALLF = ("F", "L", "X", "U", "c", "H", "r"); DYN = ("F", "L", "c")
def ff(f, names): return [f[g] for g in names]

def m_(): return importlib.import_module("parallel_control.clqt_tf")
def cat(l): return l
# part: (data names, tf body(P) -> fn(f, v) , values(P, D), numpy(q, P, D, w) -> lists in the order S, v, K, d or x, u or A, b, C)
def parts():
    out = {}
    # P.N steps in total; B blocks, s steps
    def times(P): return dict(dt=P.h if P.dt is not None else None)
    def sb(dflt):
        def body(P, B, s):
            def f(F, v):
                m = m_()
                if dflt: dt, t0, S, V = m.clqt_seq_backwardpass_defaults(P.N, v["XT"], v["HT"], v["rT"], v["T"])
                else: dt, t0, S, V = v["dt"], v["t0"], v["S"], v["v"]
                return m.clqt_seq_backwardpass(P.N, dt, t0, S, V, *ff(F, ALLF))
            return f
        def vals(P, D): return dict(T=P.T) if dflt else dict(dt=P.h, t0=P.t0, S=D["S"], v=D["v"])
        def npf(q, P, D, w, B, s):
            K, d, S, v = q.seqBackwardPass(P.N) if dflt else q.seqBackwardPass(P.N, dt=P.h, t0=P.t0, S=w(D["S"]), v=w(D["v"]))
            return S, v, K, d
        return ("" if dflt else "Sv1"), body, vals, npf, dflt, ("S", "v", "gain", "offset")
    out["sequential backward"] = sb(False); out["sequential backward default"] = sb(True)
    for zoh in (False, True):
        def body(P, B, s, zoh=zoh): return lambda F, v: m_().clqt_seq_forwardpass(v["x0"], v["K"], v["d"], v["dt"], v["t0"], *ff(F, DYN), **({"u_zoh": True} if zoh else {}))
        def npf(q, P, D, w, B, s, zoh=zoh):
            u, x = q.seqForwardPass(w(P.x0), [w(a) for a in D["K"]], [w(a) for a in D["d"]], dt=P.h, t0=P.t0, u_zoh=zoh); return x, u
        out["sequential forward" + (" held" if zoh else "")] = ("Kd", body, lambda P, D: dict(x0=P.x0, K=D["K"], d=D["d"], dt=P.h, t0=P.t0), npf, False, ("state", "control"))
    def sfb(dflt):
        def body(P, B, s):
            def f(F, v):
                m = m_()
                a = m.clqt_seq_fwdbwdpass_defaults(v["x0"], P.N, v["T"]) if dflt else (v["dt"], v["t0"], v["A"], v["b"], v["C"])
                return m.clqt_seq_fwdbwdpass(P.N, *a, *ff(F, ALLF))
            return f
        def vals(P, D): return dict(x0=P.x0, T=P.T) if dflt else dict(dt=P.h, t0=P.t0, A=D["A"], b=D["b"], C=D["C"])
        def npf(q, P, D, w, B, s): return q.seqFwdBwdPass(w(P.x0), P.N) if dflt else q.seqFwdBwdPass(None, P.N, dt=P.h, t0=P.t0, A=w(D["A"]), b=w(D["b"]), C=w(D["C"]))
        return ("" if dflt else "AbC"), body, vals, npf, dflt, ("A", "b", "C")
    out["sequential forward value"] = sfb(False); out["sequential forward value default"] = sfb(True)
    def cb(P, B, s): return lambda F, v: m_().clqt_combine_fwdbwd(v["K"], v["d"], v["S"], v["v"], v["A"], v["b"], v["C"])
    def cbn(q, P, D, w, B, s):
        l = lambda k: [w(a) for a in D[k]]
        u, x = q.combineForwardBackward(l("K"), l("d"), l("S"), l("v"), l("A"), l("b"), l("C")); return x, u
    out["combination"] = ("KdSvABC", cb, lambda P, D: {k: D[k] for k in "KdSvAbC"}, cbn, False, ("state", "control"))
    for fw in (False, True):
        for dflt in (True, False):
            for mp in ((None,) if dflt else (None, "N")):
                def body(P, B, s, fw=fw, dflt=dflt, mp=mp):
                    def f(F, v):
                        m = m_(); dt, t0, S, V = m.par_backwardpass_defaults(B, s, v["XT"], v["HT"], v["rT"], v["T"])
                        if not dflt: dt, t0 = v["dt"], v["t0"]
                        return m.clqt_par_backwardpass(B, s, dt, t0, S, V, *ff(F, ALLF), forward=fw, **(dict(max_parallel=B + 1) if mp else {}))
                    return f
                def npf(q, P, D, w, B, s, fw=fw, dflt=dflt):
                    K, d, S, v = q.parBackwardPass(B, s, forward=fw, **({} if dflt else dict(dt=P.h, t0=P.t0))); return S, v, K, d
                out["parallel backward" + (" forward equations" if fw else "") + (" default" if dflt else "") + (" limited" if mp else "")] = \
                    ("", body, (lambda P, D: dict(T=P.T)) if dflt else (lambda P, D: dict(T=P.T, dt=P.h, t0=P.t0)), npf, dflt, ("S", "v", "gain", "offset"))
        for zoh in (False, True):
            def body(P, B, s, fw=fw, zoh=zoh): return lambda F, v: m_().clqt_par_forwardpass(B, s, v["x0"], v["K"], v["d"], v["dt"], v["t0"], *ff(F, DYN), forward=fw, u_zoh=zoh)
            def npf(q, P, D, w, B, s, fw=fw, zoh=zoh):
                u, x = q.parForwardPass(w(P.x0), [w(a) for a in D["K"]], [w(a) for a in D["d"]], B, s, dt=P.h, t0=P.t0, forward=fw, u_zoh=zoh); return x, u
            out["parallel forward" + ("" if fw else " backward equations") + (" held" if zoh else "")] = ("Kd", body, lambda P, D: dict(x0=P.x0, K=D["K"], d=D["d"], dt=P.h, t0=P.t0), npf, False, ("state", "control"))
        for dflt in ((False,) if not fw else (False, True)):
            def body(P, B, s, fw=fw, dflt=dflt):
                def f(F, v):
                    m = m_(); dt, t0 = m.clqt_par_fwdbwdpass_defaults(B, s, v["T"]) if dflt else (v["dt"], v["t0"])
                    return m.clqt_par_fwdbwdpass(B, s, v["x0"], v["S"], v["v"], v["K"], v["d"], dt, t0, *ff(F, ALLF), forward=fw)
                return f
            def npf(q, P, D, w, B, s, fw=fw, dflt=dflt):
                l = lambda k: [w(a) for a in D[k]]
                u, x = q.parFwdBwdPass(w(P.x0), l("K"), l("d"), l("S"), l("v"), B, s, forward=fw, **({} if dflt else dict(dt=P.h, t0=P.t0))); return x, u
            out["forward-backward" + ("" if fw else " backward equations") + (" default" if dflt else "")] = \
                ("KdSv", body, (lambda P, D: dict(x0=P.x0, T=P.T, **{k: D[k] for k in "KdSv"})) if dflt else (lambda P, D: dict(x0=P.x0, dt=P.h, t0=P.t0, **{k: D[k] for k in "KdSv"})), npf, dflt, ("state", "control"))
    return out
TP = parts()

def tdata(P, names, n, m, N, gen):
    s = {"K": (N, (m, n), False), "d": (N, (m,), False), "S": (N + 1, (n, n), True), "v": (N + 1, (n,), False), "B": (N + 1, (n,), False)}
    D = {}
    if names == "Sv1": return {"S": gen("S", n, n, symm=True), "v": gen("v", n)}
    if names == "AbC": return {"A": gen("A", n, n), "b": gen("b", n), "C": gen("C", n, n, symm=True)}
    for x in names:
        if x in s and x != "B":
            c, sh, y = s[x]; D[x] = [gen(f"{x}{k}", *sh, symm=y) for k in range(c)]
    if "A" in names:
        D.update(A=[gen(f"A{k}", n, n) for k in range(N + 1)], b=[gen(f"b{k}", n) for k in range(N + 1)], C=[gen(f"C{k}", n, n, symm=True) for k in range(N + 1)])
    return D

@chk.family("clqttf")
def replay(case):
    _imp()
    m = importlib.import_module("parallel_control.clqt_np"); names, body, vals, npf, dflt, outs = TP[case["part"]]
    B, s = int(case["blocks"]), int(case["steps"])
    P = CNum(case, 1 / 64); D = {k[2:]: ([fl(a) for a in v] if case["lists"] else fl(v)) for k, v in case.items() if k.startswith("D_")}
    try:
        want = npf(P.make(m), P, D, lambda a: np.array(a, dtype=float), B, s)
    except Exception as ex: return False, f"the NumPy version raises {ex}"
    if not all(np.all(np.isfinite(fl(a))) for w in want for a in w): return False, "the NumPy version overflows"
    try:
        got = Conc().go(body(P, B, s), vals(P, D), P)
        for nm, g, w in zip(outs, got, want):
            e = cmp_lists(case["part"] + " " + nm, list(g.numpy()), w, 1e-9)
            if e: return True, e
    except Exception as ex: return True, f"{case['part']} raises {type(ex).__name__}: {str(ex)[-300:]}"
    return False, "agrees"

def run(t, part, n, m, p, B, s, sym=(), symD=True, allsym=False, **o):
    names, body, vals, npf, dflt, outs = TP[part]; N = B * s
    P = CProb(n, m, p, N, sym, order=ORD, allsym=allsym, t0=not dflt, dt=not dflt, **o); t.paths += 1
    D = tdata(P, names, n, m, N, lambda nm, *sh, symm=False: P.gen(nm, *sh, symm=symm, symbolic=symD))
    case = lambda env: P.case(env, part=part, blocks=B, steps=s, lists=names not in ("Sv1", "AbC"), **{"D_" + k: v for k, v in D.items()})
    mod = symnp.load("clqt_np"); want = npf(P.make(mod), P, D, ar, B, s)
    try: got = Sym(P).go(body(P, B, s), vals(P, D), P, key=(part, B, s))
    except (np.linalg.LinAlgError, ValueError, IndexError, TypeError, ZeroDivisionError, AttributeError) as ex:
        t.n_obl += 1; t.report(f"raises {type(ex).__name__}: {ex}", case(Env({x: Fraction(P.base.get(x, 0)) for x in poly.VARS}))); return
    for nm, a, b in zip(outs, got, want):
        t.equal(nm + " count", len(a), len(b), case=case, base=P.base)
        for k in range(len(b)): t.equals(f"{part} {nm} {k}", a[k], b[k], case=case, base=P.base)

def validate(t, parts):
    for i, part in enumerate(TP):
        if part not in parts: continue
        rng = random.Random(t.seed * 100 + i)
        n, m, p, B, s = rng.randint(1, 3), rng.randint(1, 2), rng.randint(1, 2), rng.randint(1, 4), rng.randint(1, 3)
        names, body, vals, npf, dflt, outs = TP[part]
        P = CProb(n, m, p, B * s, (), seed=t.seed + i, t0=not dflt, dt=not dflt)
        D = tdata(P, names, n, m, B * s, lambda nm, *sh, symm=False: P.gen(nm, *sh, symm=symm, symbolic=False) * Fraction(1, 4))
        case = P.case(Env(P.base), part=part, blocks=B, steps=s, lists=names not in ("Sv1", "AbC"), **{"D_" + k: v for k, v in D.items()}); t.validated += 1
        bad, msg = replay(dict(case))
        if bad: t.report("concrete validation", case)

def group(t, part, cfgs):
    for kw in cfgs: run(t, part, **kw)

def configs(part, big):
    """lists of configurations sharing one trace"""
    gs = list(GROUPS)
    if "backward" in part.split()[:2] and "default" in part or part.startswith("parallel backward"): gs += FINAL
    if part.startswith(("sequential forward", "parallel forward")) and "value" not in part: gs = [g for g in gs if g in ("F", "L", "c")]
    par = "parallel" in part or "forward-backward" in part
    if part == "combination":
        yield "n=1", [dict(n=1, m=1, p=1, B=1, s=2)]
        yield "n=2", [dict(n=2, m=2, p=1, B=1, s=2)]; return
    B = 2 if par else 1
    yield "n=1", [dict(n=1, m=1, p=1, B=B, s=1 if par else 2, allsym=True)]
    if par and ("limited" in part or "forward" in part and "default" in part) and not big: gs = []
    yield "n=2", [dict(n=2, m=1, p=2, B=B, s=1, sym=(g,), symD=False) for g in gs] + [dict(n=2, m=1, p=2, B=B, s=1)]
    if not par: yield "n=2 3 steps", [dict(n=2, m=2, p=2, B=1, s=3, symD=False)]
    elif "limited" not in part and ("default" not in part or big):
        yield "n=2 3x1", [dict(n=2, m=1, p=1, B=3, s=1, symD=False)]
        yield "n=1 4x2", [dict(n=1, m=1, p=1, B=4, s=2, symD=False)]
        yield "n=1 1x2", [dict(n=1, m=1, p=1, B=1, s=2, symD=False)]
        if big: yield "n=2 2x2", [dict(n=2, m=2, p=2, B=2, s=2, symD=False)]
if __name__ == "__main__":
    big = chk.tier == "thorough"
    for part in TP:
        for name, c in configs(part, big): chk.tasks.append((part + " " + name, group, dict(part=part, cfgs=c)))
    names = list(TP)
    for i in range(0, len(names), 4): chk.tasks.append((f"translation validation {i // 4}", validate, dict(parts=names[i:i + 4])))
    chk.main()
