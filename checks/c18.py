"""C18: Parareal iterations converge to the fine sequential solution in as many iterations as there are blocks."""
from checks import c17
from checks.c17 import *

chk = Check("C18",
    bounds_text="NumPy: every integrator (an uninterpreted function of step, time, state and right-hand side), all time-dependent coefficients uninterpreted functions of time, any horizon and initial state; 1 to 4 blocks of 1 to 3 steps, up to 5 iterations, n, m, p <= 2. "
                "NumPy and TensorFlow: Runge-Kutta integration as power series in the step length through the first order at which an iteration can be told apart (h^11 for two blocks, h^16 for three), one group of Taylor coefficients symbolic at a time",
    outside="more blocks, steps and iterations; rounding; fewer iterations than blocks, except for the blocks that are exact by then",
    explanation="Parareal passes executed symbolically and asserted equal to the sequential pass over blocks * steps steps, on every block that k iterations make exact and on all of them for k >= blocks")
chk.assumptions = ["floating point modelled as exact rational arithmetic", "the time stepper returns equal values for equal arguments", "TensorFlow kernels follow their documented semantics"]
def _imp():
    c17._imp(); c17.tfsym.module("parareal_clqt_tf")
chk.setup.append(_imp)
PASSES = ("backward", "forward", "forward held", "forward-backward")
OUTS = {"backward": ("gain", "offset", "S", "v"), "forward": ("control", "state"), "forward held": ("control", "state"), "forward-backward": ("A", "b", "C"), "trajectory": ("state", "control"), "combined trajectory": ("state", "control")}

def np_para(mod, q, kind, B, s, k, x0, Ks, ds):
    p = mod.Parareal_CLQT_np(q); kw = {} if k is None else {"niter": k}
    if kind == "backward": return p.backwardPass(B, s, **kw)
    if kind == "forward-backward": return p.fwdBwdPass(B, s, x0, **kw)
    return p.forwardPass(B, s, x0, Ks, ds, **kw, **({"u_zoh": True} if kind == "forward held" else {}))
def np_fine(q, kind, N, x0, Ks, ds):
    if kind == "backward": return q.seqBackwardPass(N)
    if kind == "forward-backward": return q.seqFwdBwdPass(x0, N)
    if kind == "trajectory": a, b, _, _ = q.seqBackwardPass(N); u, x = q.seqForwardPass(x0, a, b); return x, u
    if kind == "combined trajectory":
        a, b, S, v = q.seqBackwardPass(N); A, b2, C = q.seqFwdBwdPass(x0, N); u, x = q.combineForwardBackward(a, b, S, v, A, b2, C); return x, u
    return q.seqForwardPass(x0, Ks, ds, u_zoh=kind == "forward held")
def tf_para(kind, B, s, k, F, v):
    m = importlib.import_module("parallel_control.parareal_clqt_tf"); fin = [v[g] for g in FINAL]
    if kind == "backward": S, w, K, d = m.pclqt_backwardpass(B, s, k, *fin, v["T"], *ff(F, ALLF)); return K, d, S, w
    if kind == "forward-backward": return m.pclqt_fwdbwdpass(B, s, k, v["x0"], v["T"], *ff(F, ALLF))
    if kind == "trajectory": return m.pclqt_backwardforwardpass(B, s, k, v["x0"], *fin, v["T"], *ff(F, ALLF))
    if kind == "combined trajectory": return m.pclqt_backwardbwdfwdpass(B, s, k, v["x0"], *fin, v["T"], *ff(F, ALLF))
    x, u = m.pclqt_forwardpass(B, s, k, v["x0"], v["T"], v["K"], v["d"], *ff(F, DYN), **({"u_zoh": True} if kind == "forward held" else {})); return u, x
def exact(kind, B, s, k, nm, i):
    """is entry i of output nm exact after k iterations (the k blocks next to the known end, and what is integrated from them)"""
    if k is None: k = s
    if k >= B - 1 + (kind in ("trajectory", "combined trajectory")): return True
    if kind == "backward": return i >= (B - k - 1) * s
    if kind == "forward-backward" or kind.startswith("forward"): return i < (k + 1) * s
    return False

# ------------------------------------------------------------------ any integrator
class Abstract:
    """problem with uninterpreted coefficient functions, integrator an uninterpreted function"""
    def __init__(self, n, m, p, pT, seed=1):
        self.n, self.m, self.p, self.pT = n, m, p, pT; self.T = var("T"); self.x0 = self.vec("x0", n)
        self.XT = self.mat("XT", pT, pT, True); self.HT = self.mat("HT", pT, n); self.rT = self.vec("rT", pT)
    def mat(self, nm, a, b, symm=False): return np.array([[var(f"{nm}_{min(i, j)}_{max(i, j)}" if symm else f"{nm}_{i}_{j}") for j in range(b)] for i in range(a)], dtype=object)
    def vec(self, nm, a): return np.array([var(f"{nm}_{i}") for i in range(a)], dtype=object)
    def fn(self, nm, *shape):
        def f(t):
            t = symnp.unwrap(t); t = t.item() if isinstance(t, np.ndarray) else t
            o = np.empty(shape, dtype=object)
            for pos in np.ndindex(*shape):
                q = tuple(sorted(pos)) if nm in SYMM else pos
                o[pos] = poly.ufn(nm + "_" + "_".join(map(str, q)), t)
            return arr(o)
        return f
    def make(self, mod):
        s = {"F": (self.n, self.n), "L": (self.n, self.m), "X": (self.p, self.p), "U": (self.m, self.m), "c": (self.n,), "H": (self.p, self.n), "r": (self.p,)}
        f = {g: self.fn(g, *s[g]) for g in s}
        return mod.CLQT(f["F"], f["L"], f["X"], f["U"], ar(self.XT), f["c"], f["H"], f["r"], ar(self.HT), ar(self.rT), self.T)

def stepper(f, dt, x, t=None, param=None):
    xs = np.asarray(symnp.unwrap(symnp.asobj(x))); probe = arr(np.array([var(f"probe_{i}") for i in range(xs.size)], dtype=object).reshape(xs.shape))
    a = (probe,) if t is None else (probe, var("probe_t"))
    rhs = f(*a) if param is None else f(*a, param)
    sc = lambda v: symnp.unwrap(v).item() if isinstance(symnp.unwrap(v), np.ndarray) else v
    key = [sc(dt), 0 if t is None else sc(t)] + list(xs.reshape(-1)) + list(np.asarray(symnp.unwrap(symnp.asobj(rhs))).reshape(-1))
    o = np.empty(xs.shape, dtype=object)
    for i, pos in enumerate(np.ndindex(*xs.shape)): o[pos] = poly.ufn(f"step{i}", *key)
    return arr(o)

def anyint(t, kind, n, m, p, pT, B, s, k):
    P = Abstract(n, m, p, pT); t.paths += 1
    dq = symnp.load("diffeq_np"); cl = symnp.load("clqt_np"); pr = symnp.load("parareal_clqt_np"); dq.rk4 = stepper
    q = P.make(cl)
    Ks = [arr(P.mat(f"K{i}", m, n)) for i in range(B * s)]; ds = [arr(P.vec(f"d{i}", m)) for i in range(B * s)]
    want = np_fine(q, kind, B * s, ar(P.x0), list(Ks), list(ds))
    case = lambda env: dict(kind=kind, tf=False, n=n, m=m, p=p, blocks=B, steps=s, niter=k, seed=t.seed)
    base = {"T": Fraction(3, 2)}
    try: got = np_para(pr, q, kind, B, s, k, ar(P.x0), list(Ks), list(ds))
    except (np.linalg.LinAlgError, ValueError, IndexError, TypeError, ZeroDivisionError, AttributeError) as ex:
        t.n_obl += 1; t.report(f"raises {type(ex).__name__}: {ex}", case(None)); return
    for nm, a, b in zip(OUTS[kind], got, want):
        t.equal(f"{nm} count", len(a), len(b), case=case, base=base)
        for i in range(len(b)):
            if exact(kind, B, s, k, nm, i): t.equals(f"{kind} {nm} {i}", a[i], b[i], case=case, base=base)

# ------------------------------------------------------------------ Runge-Kutta, power series
def fine_gains(P, n, m, N, symbolic): return [P.gen(f"K{i}", m, n, symbolic=symbolic is True) for i in range(N)], [P.gen(f"d{i}", m, symbolic=bool(symbolic)) for i in range(N)]

def series(t, kind, tf, cfgs):
    for kw in cfgs: series1(t, kind, tf, **kw)
def series1(t, kind, tf, n, m, p, B, s, k, sym=(), x0=True, Kd=False, order=11):
    N = B * s; P = CProb(n, m, p, N, sym, order=order, t0=False, dt=False); t.paths += 1
    if not x0: P.x0 = frm(P.rng, n)
    Ks, ds = fine_gains(P, n, m, N, Kd)
    case = lambda env: P.case(env, kind=kind, tf=tf, K=Ks, d_=ds, blocks=B, steps=s, niter=k)
    cl = symnp.load("clqt_np"); pr = symnp.load("parareal_clqt_np"); q = P.make(cl)
    want = np_fine(q, kind, N, ar(P.x0), [ar(a) for a in Ks], [ar(a) for a in ds])
    try:
        if tf: got = Sym(P).go(lambda F, v: tf_para(kind, B, s, k, F, v), dict(x0=P.x0, T=P.T, K=Ks, d=ds), P, key=(kind, B, s, k))
        else: got = np_para(pr, q, kind, B, s, k, ar(P.x0), [ar(a) for a in Ks], [ar(a) for a in ds])
    except (np.linalg.LinAlgError, ValueError, IndexError, TypeError, ZeroDivisionError, AttributeError) as ex:
        t.n_obl += 1; t.report(f"raises {type(ex).__name__}: {ex}", case(Env({x: Fraction(P.base.get(x, 0)) for x in poly.VARS}))); return
    for nm, a, b in zip(OUTS[kind], got, want):
        t.equal(f"{nm} count", len(a), len(b), case=case, base=P.base)
        for i in range(len(b)):
            if exact(kind, B, s, k, nm, i): t.equals(f"{kind} {nm} {i}", a[i], b[i], case=case, base=P.base)

@chk.family("parareal")
def replay(case):
    _imp(); B, s = int(case["blocks"]), int(case["steps"])
    if "K" not in case:            # any integrator: a problem with generic time-varying coefficients shows the difference
        P = CProb(int(case["n"]), int(case["m"]), int(case["p"]), B * s, (), seed=int(case["seed"]), t0=False, dt=False)
        Ks, ds = fine_gains(P, P.n, P.m, P.N, False); case = P.case(Env(P.base), **{**case, "K": Ks, "d_": ds})
        for c in (case, *special(case)):
            bad, msg = compare(c)
            if bad: return bad, msg
        return False, msg
    return compare(case)
def special(case):
    """problems in which one quantity stands still: the Riccati solution; the offsets; everything"""
    c = {k: np.array(fl(v)) if isinstance(v, (list, np.ndarray)) and k not in ("K", "d_") else v for k, v in case.items()}
    for i in (1, 2, 3):
        for g in GROUPS: c[f"{g}{i}"] = c[f"{g}{i}"] * 0
    yield dict(c)
    a = dict(c); a["U0"] = a["U0"] / 16; W = a["L0"] @ np.linalg.solve(a["U0"], a["L0"].T); n = a["F0"].shape[0]; P = a["HT0"].T @ a["XT0"] @ a["HT0"]
    a["F0"] = W @ P / 2; a["H0"] = a["H0"] * 0
    for i in (1, 2, 3): a[f"c{i}"] = a["c0"] * 0 + i
    yield a
    b = dict(case)
    for g in ("c", "r"):
        for i in range(4): b[f"{g}{i}"] = c[f"{g}{i}"] * 0
    b["rT0"] = c["rT0"] * 0; yield b
    z = dict(b); z["x0"] = c["x0"] * 0; yield z
def compare(case):
    cl = importlib.import_module("parallel_control.clqt_np"); pr = importlib.import_module("parallel_control.parareal_clqt_np")
    kind, B, s, k = case["kind"], int(case["blocks"]), int(case["steps"]), case["niter"]; k = None if k is None else int(k)
    for h in (1 / 2, 1 / 4, 1 / 8, 1 / 16):
        P = CNum(case, h)
        Ks = [fl(a) for a in case["K"]]; ds = [fl(a) for a in case["d_"]]; q = P.make(cl)
        with np.errstate(all="ignore"):
            try: want = np_fine(q, kind, P.N, P.x0, list(Ks), list(ds))
            except Exception: continue
            if not all(np.all(np.isfinite(a)) and np.max(np.abs(a), initial=0) < 1e3 for w in want for a in w): continue
            try:
                if case["tf"]: got = [list(g.numpy()) for g in Conc().go(lambda F, v: tf_para(kind, B, s, k, F, v), dict(x0=P.x0, T=P.T, K=Ks, d=ds), P)]
                else: got = np_para(pr, q, kind, B, s, k, P.x0, list(Ks), list(ds))
            except Exception as ex: return True, f"{kind}: {type(ex).__name__}: {str(ex)[-300:]}"
        for nm, g, w in zip(OUTS[kind], got, want):
            if len(g) != len(w): return True, f"{kind} {nm}: {len(g)} entries instead of {len(w)}"
            ix = [i for i in range(len(w)) if exact(kind, B, s, k, nm, i)]
            e = cmp_lists(f"{kind} {nm} after {k} iterations", [g[i] for i in ix], [w[i] for i in ix], 1e-8)
            if e: return True, e
    return False, "agrees"

def validate(t, tf, kind):
        rng = random.Random(t.seed)
        for _ in range(1 if tf else 4):
            n, m, p, B, s = rng.randint(1, 3), rng.randint(1, 2), rng.randint(1, 2), rng.randint(1, 4), rng.randint(1, 4)
            ks = [B, B + 1] + list(range(1, B)) + ([] if tf else [None]); k = rng.choice(ks); t.validated += 1
            P = CProb(n, m, p, B * s, (), seed=rng.randint(1, 10 ** 6), t0=False, dt=False); Ks, ds = fine_gains(P, n, m, P.N, False)
            case = P.case(Env(P.base), kind=kind, tf=tf, K=Ks, d_=ds, blocks=B, steps=s, niter=k)
            bad, msg = replay(dict(case))
            if bad: t.report("concrete validation", case)

if __name__ == "__main__":
    big = chk.tier == "thorough"
    for kind in PASSES:
        for n, m, p, pT, B, s, k in [(1, 1, 1, 1, 1, 1, 1), (2, 1, 1, 2, 2, 2, 2), (2, 2, 2, 1, 3, 2, 3), (1, 1, 1, 1, 3, 2, 2), (1, 1, 2, 1, 4, 1, 4), (1, 1, 1, 1, 4, 2, 1), (1, 1, 1, 1, 2, 3, 4), (2, 1, 2, 2, 2, 2, None), (1, 1, 1, 1, 2, 3, None), (1, 1, 1, 1, 3, 1, None), (1, 2, 1, 1, 4, 3, 5)] + ([(2, 2, 2, 2, 5, 2, 5), (2, 1, 1, 1, 6, 3, 4), (1, 1, 1, 1, 8, 2, 8)] if big else []):
            chk.task(anyint, kind=kind, n=n, m=m, p=p, pT=pT, B=B, s=s, k=k)
    for tf in (False, True):
        for kind in (OUTS if tf else PASSES):
            one = [dict(sym=(g,), x0=False) for g in (GROUPS + (FINAL if kind in ("backward", "trajectory") else []) if kind not in ("forward", "forward held") else ("F", "L", "c"))]
            C = lambda n, m, p, B, s, k, l: [dict(n=n, m=m, p=p, B=B, s=s, k=k, **x) for x in l]
            for j in range(0, len(one), 4): chk.tasks.append((f"{kind} series tf={tf} n=1 {j}", series, dict(kind=kind, tf=tf, cfgs=C(1, 1, 1, 2, 2, 2, one[j:j + 4] + ([dict(Kd=True)] if j == 0 and kind in ("forward", "forward held") else [])))))
            lin = [dict()] if kind in ("trajectory", "combined trajectory", "backward") else [dict(x0=True), dict(Kd=True if kind == "forward held" else "d", x0=False)][:2 if kind != "forward-backward" else 1]
            chk.tasks.append((f"{kind} series tf={tf} n=2", series, dict(kind=kind, tf=tf, cfgs=C(2, 1, 2, 2, 2, 2, lin + [dict(sym=("c",), x0=False)]))))
            chk.tasks.append((f"{kind} series tf={tf} 3 blocks", series, dict(kind=kind, tf=tf, cfgs=C(1, 1, 1, 3, 2, 3, [dict(order=16)]))))
            chk.tasks.append((f"{kind} series tf={tf} 3 blocks 1 iteration", series, dict(kind=kind, tf=tf, cfgs=C(1, 1, 1, 3, 2, 1, [dict()]))))
            chk.tasks.append((f"{kind} series tf={tf} 2 blocks 3 steps", series, dict(kind=kind, tf=tf, cfgs=C(1, 2, 1, 2, 3, 3, [dict()]))))
            chk.tasks.append((f"{kind} series tf={tf} 1 block", series, dict(kind=kind, tf=tf, cfgs=C(2, 1, 1, 1, 2, 1, [dict()]))))
            chk.task(validate, name=f"translation validation {kind} tf={tf}", tf=tf, kind=kind)
    chk.main()
