"""C14: Discretisation of linear differential equations is exact."""
import importlib, random, math
from fractions import Fraction
import numpy as np
from vlib.run import Check, Env, mval
from vlib import symnp, poly
from vlib.zsym import Unsupported
from vlib.symnp import arr
from vlib.poly import var, R, coeff, truncate
from checks.lqt_common import mulo, eye, zeros, frm, off, fl
symnp.DOMAIN["rat"] = True

chk = Check("C14",
    bounds_text="every coefficient of the step length up to order 8 (state dimension 1), 6 (dimension 2), 4 (dimension 3), with all matrices symbolic for dimension 1 and 2 and one matrix at a time for dimension 3; input dimensions 1 to 2, noise dimensions 1 to 2; scalar, matrix and default noise densities, default input matrix, default step length; real, integer and mixed element types",
    outside="higher orders of the step length, larger dimensions, the matrix exponential routine itself (replaced by its power series), rounding",
    explanation="source executed with the matrix exponential replaced by its truncated power series over exact rational functions; every coefficient of the step length asserted equal to that of the defining integrals")
chk.assumptions = ["scipy.linalg.expm is the matrix exponential", "floating point modelled as exact rational arithmetic"]
H = var("h")

def tr(a, N): return np.array([truncate(x, H, N) for x in a.ravel()], dtype=object).reshape(a.shape)
def mulT(a, b, N): return tr(mulo(a, b), N)
def series(N):
    def f(M):
        M = np.asarray(symnp.unwrap(symnp.asobj(M)), dtype=object); n = len(M)
        for x in M.ravel():
            if coeff(x, H, 0).num: raise Unsupported("matrix exponential of a matrix that does not vanish with the step length")
        S = eye(n); P = eye(n)
        for k in range(1, N + 1):
            P = mulT(P, M, N)
            S = S + P * Fraction(1, math.factorial(k))
        return arr(S, 'f')
    return f
def exact(F, L, Qc, G, dt, N):
    """A, B, Q as truncated series of their defining integrals"""
    n = len(F); P = [eye(n)]; D = [1]
    for k in range(N): P.append(mulo(P[-1], F) * dt if N == 0 else tr(mulo(P[-1], F) * dt, N))
    A = sum(P[k] * Fraction(1, math.factorial(k)) for k in range(N + 1))
    B = sum(mulo(P[k], G) * dt * Fraction(1, math.factorial(k + 1)) for k in range(N + 1))
    Q0 = mulo(mulo(L, Qc), L.T) * dt; Q = zeros(n, n)
    for j in range(N + 1):
        for k in range(N + 1 - j):
            Q = Q + mulo(mulo(P[j], Q0), P[k].T) * Fraction(1, math.factorial(j) * math.factorial(k) * (j + k + 1))
    return A, B, Q

# ---------------------------------------------------------------- concrete side
def A_(v): return np.array([A_(i) if isinstance(i, list) else Fraction(i) for i in v], dtype=object) if isinstance(v, list) else Fraction(v)
def exact_f(F, L, Qc, G, dt, N=60):
    F, L, Qc, G, dt = [np.array(a, dtype=np.longdouble) for a in (F, L, Qc, G, dt)]
    n = len(F); P = [np.eye(n, dtype=np.longdouble)]
    for k in range(N): P.append(P[-1] @ F * dt / (k + 1))
    A = sum(P); B = sum(P[k] @ G * dt / (k + 1) for k in range(N)); Q0 = L @ Qc @ L.T * dt
    Q = sum(P[j] @ Q0 @ P[k].T / (j + k + 1) for j in range(N) for k in range(N - j))
    return A, B, Q
def cast(v, ints): return np.array([[int(x) for x in r] for r in v.tolist()]) if ints else fl(v)
@chk.family("disc")
def replay(case):
    m = importlib.import_module("parallel_control.disc")
    F, L, Qc, G = [A_(case[k]) for k in ("F", "L", "Qc", "G")]; dt = Fraction(case["dt"])
    if abs(dt) > 2: dt = Fraction(1, 2)
    n, q = L.shape; ints = case.get("ints") or ""
    mode = case["mode"]; kw = {}
    f, l, qc, g = cast(F, "F" in ints), cast(L, "L" in ints), cast(Qc, "Q" in ints), cast(G, "G" in ints)
    if "s" in mode: kw["Qc"] = float(Qc[0, 0])
    elif "q" in mode: kw["Qc"] = qc
    if "d" in mode: kw["dt"] = float(dt)
    else: dt = Fraction(1)
    Qe = Qc if "s" in mode or "q" in mode else eye(q)
    Ge = G if "g" in mode else eye(n)
    want = exact_f(fl(F), fl(L), fl(Qe), fl(Ge), float(dt))
    try:
        if "u" in mode:
            if "g" in mode: kw["G"] = g
            A, B, Q = m.lti_disc_u(f, l, **kw); pairs = (("transition matrix", A, want[0]), ("input matrix", B, want[1]), ("covariance", Q, want[2]))
        else:
            A, Q = m.lti_disc(f, l, **kw); pairs = (("transition matrix", A, want[0]), ("covariance", Q, want[2]))
        for nm, a, b in pairs:
            a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
            if a.shape != b.shape: return True, f"{nm}: shape {a.shape} instead of {b.shape}"
            e = np.max(np.abs(a - b))
            if not e <= 1e-7 * (1 + np.max(np.abs(b))): return True, f"{nm}: {a.tolist()} instead of {b.tolist()}"
    except Exception as ex:
        return True, f"raises {type(ex).__name__}: {ex}"
    return False, "agrees"

# ---------------------------------------------------------------- symbolic side
def run(t, n, q, g, mode, N, sym, ints="", seed=1):
    rng = random.Random(seed * 11 + n); base = {"h": Fraction(1, 2)}; t.paths += 1
    V = {"F": frm(rng, n, n), "L": frm(rng, n, q), "Qc": frm(rng, q, q), "G": frm(rng, n, g)}
    V["Qc"] = mulo(V["Qc"], V["Qc"].T) + eye(q)
    if "s" in mode: V["Qc"] = V["Qc"][:1, :1]
    for k, c in zip(V, "FLQG"):
        if c in ints: V[k] = np.array([[Fraction(rng.randint(-2, 2)) for _ in r] for r in V[k]], dtype=object)
    X = {}
    for k in V:
        if k in sym:
            o = np.empty(V[k].shape, dtype=object)
            for pos in np.ndindex(*o.shape):
                p = tuple(sorted(pos)) if k == "Qc" else pos
                nm = k + "_".join(map(str, p)); base[nm] = V[k][p]; o[pos] = var(nm)
            X[k] = o
        else: X[k] = V[k]
    # without a step length argument the matrices themselves carry it
    hd = "d" in mode; dt = H if hd else Fraction(1); sc = 1 if hd else H
    S = {"F": X["F"] * sc, "L": X["L"], "Qc": X["Qc"] * sc, "G": X["G"] * sc}
    if not hd and not ("q" in mode or "s" in mode): S["L"] = X["L"] * sc
    if not hd and "u" in mode and "g" not in mode: return
    Qe = S["Qc"] if "s" in mode or "q" in mode else eye(q)
    Ge = S["G"] if "g" in mode else eye(n)
    A, B, Q = exact(S["F"], S["L"], Qe, Ge, dt, N)
    kw = dict(case=lambda env: dict({k: mval(env, v) for k, v in X.items()} if hd else {k: mval(env, v) for k, v in S.items()}, dt=mval(env, H), mode=mode, ints=ints), base=base)
    kind = lambda c: 'i' if c in ints else 'f'
    symnp.EXPM["fn"] = series(N)
    m = symnp.load("disc"); k = {}
    if "s" in mode: k["Qc"] = S["Qc"][0, 0]
    elif "q" in mode: k["Qc"] = arr(S["Qc"].copy(), kind("Q"))
    if hd: k["dt"] = H
    try:
        if "u" in mode:
            if "g" in mode: k["G"] = arr(S["G"].copy(), kind("G"))
            r = m.lti_disc_u(arr(S["F"].copy(), kind("F")), arr(S["L"].copy(), kind("L")), **k); want = (A, B, Q)
        else: r = m.lti_disc(arr(S["F"].copy(), kind("F")), arr(S["L"].copy(), kind("L")), **k); want = (A, Q)
    except (ValueError, TypeError, IndexError, AttributeError) as ex:
        t.n_obl += 1
        return t.report(f"raises {type(ex).__name__}: {ex}", kw["case"](Env({x: Fraction(base.get(x, 1)) for x in poly.VARS})))
    finally: symnp.EXPM["fn"] = None
    t.equal("results", len(r), len(want), **kw)
    for nm, a, b in zip(("A", "B", "Q") if "u" in mode else ("A", "Q"), r, want):
        a = np.asarray(symnp.unwrap(a), dtype=object)
        t.equal(nm + " shape", a.shape == b.shape, True, **kw) if a.shape != b.shape else None
        if a.shape != b.shape: continue
        for pos in np.ndindex(*b.shape):
            x = a[pos] if isinstance(a[pos], poly.Rat) else R(a[pos]); y = b[pos] if isinstance(b[pos], poly.Rat) else R(b[pos])
            for o in range(N + 1): t.equal(f"{nm}{list(pos)} order {o}", coeff(x, H, o), coeff(y, H, o), **kw)

def validate(t):
    for s in range(16):
        rng = random.Random(t.seed * 100 + s); n, q, g = rng.randint(1, 5), rng.randint(1, 2), rng.randint(1, 3); mode = rng.choice(MODES)
        if "s" in mode: q = 1
        ints = rng.choice(["", "F", "FL", "FLQG", "G"])
        rm = lambda a, b, c: np.array([[Fraction(rng.randint(-4, 4), 1 if c in ints else 3) for _ in range(b)] for _ in range(a)], dtype=object)
        case = dict(F=rm(n, n, "F").tolist(), L=rm(n, q, "L").tolist(), Qc=rm(q, q, "Q").tolist(), G=rm(n, g, "G").tolist(), dt=Fraction(rng.randint(1, 8), 8), mode=mode, ints=ints); t.validated += 1
        bad, msg = replay(dict(case))
        if bad: t.report("concrete validation", case)

# u: lti_disc_u, d: step length given, q: matrix density, s: scalar density, g: input matrix given
MODES = ["", "q", "s", "d", "dq", "ds", "ug", "ugq", "ud", "udg", "udgq", "udgs", "udq", "uds"]
if __name__ == "__main__":
    big = chk.tier == "thorough"
    ALLG = ("F", "L", "Qc", "G")
    def add(**kw): chk.tasks.append((" ".join(f"{k}={v}" for k, v in kw.items()), run, kw))
    for mode in MODES:
        add(n=1, q=1, g=1, mode=mode, N=8 if not big else 12, sym=ALLG)
        add(n=2, q=1 if "s" in mode else 2, g=1 if "s" in mode else 2, mode=mode, N=4 if not big else 6, sym=ALLG)
        add(n=2, q=1, g=3, mode=mode, N=6 if not big else 8, sym=("F",))
        for k in ("F", "L", "Qc", "G"): add(n=3, q=1 if "s" in mode else 2, g=2, mode=mode, N=4 if not big else 6, sym=(k,))
        for ints in ("F", "FL", "FLQG", "FG", "L", "FLG"):
            c = {"F": "F", "L": "L", "Q": "Qc", "G": "G"}
            if "d" in mode: add(n=2, q=1, g=2, mode=mode, N=5, sym=tuple(c[x] for x in "LQG" if x not in ints), ints=ints)
    chk.task(validate, name="translation validation")
    chk.main()
