"""C27: Example tracking and mass models give the documented control problems."""
import importlib, random, math
from fractions import Fraction
import numpy as np
from vlib.run import Check, Env, mval
from vlib import symnp, poly, zsym
from vlib.zsym import Unsupported
from vlib.symnp import arr, unwrap, asobj
from vlib.poly import var, R, Rat, coeff, truncate, ufn, diff
from checks.lqt_common import mulo, eye, zeros, fl
symnp.DOMAIN["rat"] = True

chk = Check("C27",
    bounds_text="tracking problems: every trajectory of 1 to 4 points with 1 to 10 steps between points; nonlinear model: every state, control and step length, batches of 1 to 3; initial guesses: every reference and initial state to horizon 3 (2 from references); mass chains of 1 to 6 masses with every coefficient of the step length up to order 6, horizons 1 to 6, every rounding error of the step length and of its division; generated trajectories: every direction of 1 to 2 further steps from the start and from next to the walls",
    outside="the reference curve's coefficients other than their agreement, the generated trajectory of the nonlinear model, speeds of the initial guess, larger sizes, rounding other than that of the number of steps",
    explanation="model source executed on symbolic trajectories, states and step lengths (matrix exponential as truncated power series, sine and cosine as functions with sin^2+cos^2=1); problem data asserted equal to the documented models, schedules and zero-order-hold discretisation, Jacobians to the derivatives of the executed model, TensorFlow versions to the NumPy ones")
chk.assumptions = ["scipy.linalg.expm is the matrix exponential", "floating point modelled as exact rational arithmetic, except for the number of time steps, where each division has a relative rounding error up to 2^-53", "TensorFlow kernels follow their documented semantics"]
def _imp():
    global tfsym, tf
    from vlib import tfsym
    import tensorflow as tf
    tfsym.module("linear_model_tf"); tfsym.module("nonlinear_model_tf")
chk.setup.append(_imp)
O = lambda x: np.asarray(x, dtype=object)
Fr = lambda v: np.vectorize(Fraction, otypes=[object])(O(v)) if O(v).size else O(v)
H = var("h")
diag = lambda *v: np.diag(O([Fraction(i) for i in v])) + O(np.zeros((len(v), len(v)), dtype=int))

# ------------------------------------------------------------------ oracle
def tracking(which, xy, steps):
    """documented data of the tracking problem through the columns of xy"""
    N = xy.shape[1]; T = steps * N; dt = Fraction(1, steps); d = {}
    if which == "linear":
        F = eye(4); F[0, 2] = F[1, 3] = dt; L = zeros(4, 2); L[0, 0] = L[1, 1] = dt * dt / 2; L[2, 0] = L[3, 1] = dt
        d["H"] = eye(4)[:2]; d["HT"] = eye(4); d["XT"] = eye(4); d["U"] = diag("1/10", "1/10"); Xl, Xn = diag(100, 100), diag("1/1000000", "1/1000000")
        d["rT"] = O([xy[0, -1], xy[1, -1], 0, 0]); x0 = O([xy[0, 0], xy[1, 0], 0, 0])
    else:
        F = eye(4); L = zeros(4, 2); L[2, 0] = L[3, 1] = Fraction(1)
        d["H"] = d["HT"] = eye(4)[:3]; d["U"] = diag(1, 100); Xl, Xn = diag(100, 100, 1000), diag(*["1/1000000"] * 3); d["XT"] = Xn; d["rT"] = xy[:3, -1]; x0 = O([xy[0, 0], xy[1, 0], xy[2, 0], 0])
    d.update(F=F, L=L, c=zeros(4), Z=eye(2), s=zeros(2), M=zeros(len(Xl), 2))
    return d, [Xl if k % steps == 0 else Xn for k in range(T)], [xy[:, k // steps] for k in range(T)], x0, T
def mass(N):
    """d2y_i/dt2 = c/m (y_{i-1} - 2 y_i + y_{i+1}) + d/m (the same of the velocities), +u_1/m on the first, -u_2/m on the last; state (y_1, y_1', y_2, ...)"""
    c, d = Fraction(1), Fraction(1, 5); F = zeros(2 * N, 2 * N); L = zeros(2 * N, 2)
    for i in range(N):
        F[2 * i, 2 * i + 1] = Fraction(1)
        for j, w in ((i - 1, 1), (i, -2), (i + 1, 1)):
            if 0 <= j < N: F[2 * i + 1, 2 * j] = c * w; F[2 * i + 1, 2 * j + 1] = d * w
    L[1, 0] = Fraction(1); L[2 * N - 1, 1] = Fraction(-1); return F, L
zeros = lambda *s: O(np.zeros(s, dtype=int)) * Fraction(1)
STEPN = ("F", "L", "c", "H", "Z", "s", "M", "U")

# ------------------------------------------------------------------ replays
def near(a, b, msg):
    a = np.asarray(a, dtype=float); b = np.asarray(np.vectorize(float, otypes=[float])(b) if np.asarray(b).size else b, dtype=float)
    if a.shape != b.shape: return f"{msg} has shape {a.shape} instead of {b.shape}"
    if not np.all(np.abs(a - b) <= 1e-9 * (1 + np.abs(b))): return f"{msg} is {a.tolist()} instead of {b.tolist()}"
@chk.family("tracking")
def replay(case):
    which, steps = case["which"], int(case["steps"]); xy = Fr(case["xy"]); name = dict(linear="linear_model_np", nonlinear="nonlinear_model_np")[which]
    m = importlib.import_module("parallel_control." + name); M = m.LinearModel() if which == "linear" else m.NonlinearModel()
    try: q, x0 = M.getLQT(fl(xy), **({} if case.get("dflt") else dict(steps=steps)))
    except Exception as ex: return True, f"{which} getLQT raises {type(ex).__name__}: {ex}"
    d, X, r, w0, T = tracking(which, xy, steps); e = near(x0, w0, "initial state")
    for n in ("XT", "HT", "rT"): e = e or near(getattr(q, n), d[n], n)
    for n in STEPN + ("X", "r"):
        l = getattr(q, n)
        if len(l) != T: return True, f"{which} getLQT: {n} has {len(l)} steps instead of {T}"
        for k in range(T): e = e or near(l[k], d[n] if n in d else (X, r)[n == "r"][k], f"{n} at step {k}")
    return (True, f"{which} getLQT with {xy.shape[1]} points and {steps} steps: {e}") if e else (False, "agrees")
@chk.family("model")
def replay_model(case):
    m = importlib.import_module("parallel_control.nonlinear_model_np"); X, U, dt = Fr(case["x"]), Fr(case["u"]), Fraction(case["dt"]); d = float(dt)
    def f(x, u): return np.array([x[0] + x[3] * math.cos(x[2]) * d, x[1] + x[3] * math.sin(x[2]) * d, x[2] + u[1] * d, x[3] + u[0] * d])
    def Fx(x, u): s, c = math.sin(x[2]), math.cos(x[2]); return np.array([[1, 0, -x[3] * s * d, c * d], [0, 1, x[3] * c * d, s * d], [0, 0, 1, 0], [0, 0, 0, 1]])
    def Fu(x, u): return np.array([[0, 0], [0, 0], [0, d], [d, 0]])
    e = None
    try:
        if case["lib"] == "np":
            M = m.NonlinearModel(dt=d)
            for x, u in zip(X, U):
                x, u = fl(x), fl(u)
                for nm, a, b in (("f", M.f(x, u), f(x, u)), ("Fx", M.Fx(x, u), Fx(x, u)), ("Fu", M.Fu(x, u), Fu(x, u))): e = e or near(a, b, nm)
        else:
            _imp(); mt = importlib.import_module("parallel_control.nonlinear_model_tf"); xs, us = tf.constant(fl(X)), tf.constant(fl(U))
            kw = {} if case.get("dflt") else dict(dt=d)
            if case.get("dflt"): d = 0.1
            for nm, g, w in (("f", mt.nonlinear_model_f, f), ("Fx", mt.nonlinear_model_Fx, Fx), ("Fu", mt.nonlinear_model_Fu, Fu)): e = e or near(g(xs, us, **kw).numpy(), np.stack([w(x, u) for x, u in zip(fl(X), fl(U))]), nm)
    except Exception as ex: return True, f"{case['lib']} nonlinear model raises {type(ex).__name__}: {str(ex)[-300:]}"
    return (True, f"{case['lib']} nonlinear model with step {d}: {e} at x={fl(X).tolist()} u={fl(U).tolist()}") if e else (False, "agrees")
def fake(r, n, m):
    class Q: pass
    q = Q(); T = len(r); q.F = T * [np.eye(n)]; q.L = T * [np.zeros((n, m))]; q.r = r; return q
@chk.family("guess")
def replay_guess(case):
    m = importlib.import_module("parallel_control.nonlinear_model_np"); r = Fr(case["r"]); x0 = Fr(case["x0"]); T = len(r); zero = bool(case["zero"])
    try: us, xs = m.NonlinearModel().initialGuess(fake([fl(v) for v in r], 4, 2), fl(x0), **({} if zero and case.get("dflt") else dict(init_to_zero=zero)))
    except Exception as ex: return True, f"initialGuess raises {type(ex).__name__}: {ex}"
    if len(us) != T or len(xs) != T + 1: return True, f"initialGuess returns {len(us)} controls and {len(xs)} states for {T} steps"
    e = near(xs[0], x0, "first state")
    for k in range(T):
        e = e or near(us[k], zeros(2), f"control {k}") or near(xs[k + 1] if zero else xs[k + 1][:3], zeros(4) if zero else r[k], f"state {k + 1}")
        if len(xs[k + 1]) != 4 or not np.isfinite(xs[k + 1]).all() or xs[k + 1][3] < 0: e = e or f"state {k + 1} is {xs[k + 1]}"
    return (True, f"initialGuess(init_to_zero={zero}) for references {fl(r).tolist()}: {e}") if e else (False, "agrees")
@chk.family("mass")
def replay_mass(case):
    m = importlib.import_module("parallel_control.mass_model_np"); N, dt, T = int(case["N"]), Fraction(case["dt"]), int(case["T"]); e = None
    if not 0 < dt <= 2: dt = Fraction(1, 4)
    try: M = m.MassModel(N); q, x0 = M.getLQT(dt=float(dt), Tf=float(dt * T) + float(dt) / 8)
    except Exception as ex: return True, f"MassModel({N}).getLQT raises {type(ex).__name__}: {ex}"
    F, L = fl(mass(N)[0]), fl(mass(N)[1]); n = 2 * N; P = np.eye(n, dtype=np.longdouble); A = np.zeros((n, n), dtype=np.longdouble); B = np.zeros((n, 2), dtype=np.longdouble)
    for k in range(60): A = A + P; B = B + P @ L * float(dt) / (k + 1); P = P @ F * float(dt) / (k + 1)
    xd = np.zeros(n); xd[0] = 1; xd[N if N % 2 == 0 else N - 1] = 1; w = dict(F=A.astype(float), L=B.astype(float), X=np.eye(n), U=0.1 * np.eye(2), c=np.zeros(n), H=np.eye(n), r=np.zeros(n), Z=np.eye(2), s=np.zeros(2), M=np.zeros((n, 2)))
    e = near(x0, xd, "initial state") or near(q.XT, np.eye(n), "XT") or near(q.HT, np.eye(n), "HT") or near(q.rT, np.zeros(n), "rT")
    for nm in w:
        l = getattr(q, nm)
        if len(l) != T: return True, f"MassModel({N}).getLQT has {len(l)} steps instead of {T}"
        for a in l: e = e or near(a, w[nm], nm)
    return (True, f"MassModel({N}) with step {float(dt)}: {e}") if e else (False, "agrees")
@chk.family("steps")
def replay_steps(case):
    """number of steps for a step length of the final time divided by that number, or a final time that is a multiple of the step length"""
    m = importlib.import_module("parallel_control.mass_model_np"); M = m.MassModel(1); T0 = int(case["T"])
    for T in [T0] + [T for T in range(1, 130) if T != T0]:
        for Tf in (10.0, 1.0, 0.3, 0.7, 3.0):
            for what, dt, tf_ in (("Tf/T", Tf / T, Tf), ("T*dt", Tf / 10, T * (Tf / 10))):
                n = len(M.getLQT(dt=dt, Tf=tf_)[0].F)
                if n != T: return True, f"MassModel.getLQT(dt={dt!r}, Tf={tf_!r}) has {n} steps instead of {T} ({what})"
    return False, "agrees"
@chk.family("walk")
def replay_walk(case):
    from checks.c24 import Draws, drawing
    m = importlib.import_module("parallel_control.linear_model_np"); N = int(case["N"]); us = [float(Fraction(u)) for u in case["us"]]; rng = random.Random(5)
    for trial in range(60):
        with drawing(m, Draws(lambda k, n: us[k % len(us)] if trial == 0 else rng.random(), True)):
            try: xy = m.LinearModel().genData(N if trial == 0 else 120)
            except Exception as ex: return True, f"genData raises {type(ex).__name__}: {ex}"
        if xy.shape != (2, N if trial == 0 else 120): return True, f"genData({N}) has shape {xy.shape}"
        if np.any(xy[:, 0] != 5.0): return True, f"genData starts at {xy[:, 0]}"
        if np.any(xy < 0.5 - 1e-12) or np.any(xy > 9.5 + 1e-12): return True, f"genData leaves the arena at {xy[:, np.argmax(((xy < 0.5) | (xy > 9.5)).any(axis=0))]}"
        s = np.hypot(*np.diff(xy, axis=1))
        if not np.allclose(s, 1.0): return True, f"genData moves by {s[np.argmax(np.abs(s - 1))]} instead of 1"
    return False, "agrees"
@chk.family("clqt")
def replay_clqt(case):
    _imp(); m = importlib.import_module("parallel_control.linear_model_np"); mt = importlib.import_module("parallel_control.linear_model_tf"); q, x0 = m.LinearModel().getCLQT(); d = mt.get_clqt()
    names = ("x0", "T", "XT", "HT", "rT", "F", "L", "X", "U", "c", "H", "r"); e = None
    for nm, b in zip(names, d):
        if nm in ("F", "L", "X", "U", "c", "H", "r"):
            for t in [float(Fraction(case["t"])) % 50.0] + list(np.linspace(0, 50, 37)): e = e or near(b(tf.constant(t, tf.float64)).numpy(), np.asarray(getattr(q, nm)(t)), f"TensorFlow {nm}({t})") or (nm != "r" and near(getattr(q, nm)(t), CL[nm], nm))
        else: e = e or near(np.asarray(b), np.asarray(x0 if nm == "x0" else getattr(q, nm)), f"TensorFlow {nm}") or (nm in CL and near(np.asarray(b), CL[nm], nm))
    return (True, "continuous-time tracking model: " + e) if e else (False, "agrees")
_F = zeros(4, 4); _F[0, 2] = _F[1, 3] = Fraction(1); _L = zeros(4, 2); _L[2, 0] = _L[3, 1] = Fraction(1)
CL = dict(F=_F, L=_L, X=eye(2), U=diag("1/10", "1/10"), c=zeros(4), H=eye(4)[:2], XT=eye(4), HT=eye(4), T=O(Fraction(50)))

# ------------------------------------------------------------------ symbolic side
def nilexp(M):
    """exponential of a nilpotent matrix"""
    M = O(unwrap(asobj(M))); n = len(M); S = eye(n); P = eye(n)
    for k in range(1, n + 1):
        P = mulo(P, M); S = S + P * Fraction(1, math.factorial(k))
    if any((v.num if isinstance(v, Rat) else v) for v in P.ravel()): raise Unsupported("matrix exponential of a matrix that is not nilpotent")
    return arr(S, 'f')
def series(N):
    def f(M):
        M = O(unwrap(asobj(M))); n = len(M); tr = lambda a: O([truncate(x, H, N) for x in a.ravel()]).reshape(a.shape)
        if any(coeff(x, H, 0).num for x in M.ravel()): raise Unsupported("matrix exponential of a matrix that does not vanish with the step length")
        S = eye(n); P = eye(n)
        for k in range(1, N + 1): P = tr(mulo(P, M)); S = S + P * Fraction(1, math.factorial(k))
        return arr(S, 'f')
    return f
def sy(nm, *sh, base=None, rng=None):
    o = np.empty(sh, dtype=object)
    for p in np.ndindex(*sh): n = nm + "_".join(map(str, p)); o[p] = var(n); base[n] = Fraction(rng.randint(-12, 12), 4)
    return o
def guard(t, fam, kw, fn):
    try: return fn()
    except (ValueError, TypeError, IndexError, AttributeError, KeyError, ZeroDivisionError) as ex:
        t.n_obl += 1; t.report(f"raises {type(ex).__name__}: {ex}", kw["case"](Env({x: Fraction(kw["base"].get(x, 1)) for x in poly.VARS})), fam)
def tol(r):
    """decimal constants of the source are those decimals"""
    return r
def track(t, which, N, steps, dflt=False):
    base = {}; rng = random.Random(N); xy = sy("p", 2 if which == "linear" else 3, N, base=base, rng=rng); t.paths += 1
    kw = dict(case=lambda env: dict(which=which, steps=steps, xy=mval(env, xy), dflt=dflt), base=base, family="tracking")
    m = symnp.load(dict(linear="linear_model_np", nonlinear="nonlinear_model_np")[which]); M = m.LinearModel() if which == "linear" else m.NonlinearModel(); symnp.EXPM["fn"] = nilexp
    try: r = guard(t, "tracking", kw, lambda: M.getLQT(arr(xy.copy()), **({} if dflt else dict(steps=steps))))
    finally: symnp.EXPM["fn"] = None
    if r is None: return
    q, x0 = r; d, X, rr, w0, T = tracking(which, xy, steps); t.equals("initial state", x0, w0, **kw)
    for n in ("XT", "HT", "rT"): t.equals(n, getattr(q, n), d[n], **kw)
    for n in STEPN + ("X", "r"):
        l = getattr(q, n); t.equal(n + " length", len(l), T, **kw)
        for k in range(T): t.equals(f"{n} {k}", l[k], d[n] if n in d else (X, rr)[n == "r"][k], **kw)
def nonlin(t, lib, B, dflt=False):
    base = {}; rng = random.Random(B); X = sy("x", B, 4, base=base, rng=rng); U = sy("u", B, 2, base=base, rng=rng); dt = Fraction(1, 10) if dflt else var("dt"); base["dt"] = Fraction(1, 5); t.paths += 1
    kw = dict(case=lambda env: dict(lib=lib, x=mval(env, X), u=mval(env, U), dt=mval(env, dt), dflt=dflt), base=base, family="model"); cs, sn = (lambda v: poly.uf("cos", v)), (lambda v: poly.uf("sin", v))
    f = O([[x[0] + x[3] * cs(x[2]) * dt, x[1] + x[3] * sn(x[2]) * dt, x[2] + u[1] * dt, x[3] + u[0] * dt] for x, u in zip(X, U)])
    J = lambda W: O([[[diff(f[b, i], w) for w in W[b]] for i in range(4)] for b in range(B)])
    want = (f, J(X), J(U))
    if lib == "np":
        M = symnp.load("nonlinear_model_np").NonlinearModel(dt=dt)
        got = guard(t, "model", kw, lambda: [np.stack([O(unwrap(asobj(g(arr(x.copy()), arr(u.copy()))))) for x, u in zip(X, U)]) for g in (M.f, M.Fx, M.Fu)])
    else:
        m = tfsym.module("nonlinear_model_tf"); got = guard(t, "model", kw, lambda: [tfsym.run((lambda x, u, g=g: g(x, u)) if dflt else (lambda x, u, d, g=g: g(x, u, d)), X, U, *([] if dflt else [O(dt)])) for g in (m.nonlinear_model_f, m.nonlinear_model_Fx, m.nonlinear_model_Fu)])
    if got is None: return
    for nm, a, b in zip(("f", "Fx", "Fu"), got, want): t.equals(nm, a, b, **kw)
def guess(t, T, zero, dflt=False):
    base = {}; rng = random.Random(T); r = sy("r", T, 3, base=base, rng=rng); x0 = sy("x", 4, base=base, rng=rng); t.paths += 1
    kw = dict(case=lambda env: dict(r=mval(env, r), x0=mval(env, x0), zero=zero, dflt=dflt), base=base, family="guess"); q = fake([arr(v.copy()) for v in r], 4, 2)
    q.F = T * [arr(eye(4))]; q.L = T * [arr(zeros(4, 2))]
    got = guard(t, "guess", kw, lambda: symnp.load("nonlinear_model_np").NonlinearModel().initialGuess(q, arr(x0.copy()), **({} if dflt else dict(init_to_zero=zero))))
    if got is None: return
    us, xs = got; t.equal("controls", len(us), T, **kw); t.equal("states", len(xs), T + 1, **kw); t.equals("first state", xs[0], x0, **kw)
    for k in range(T):
        a = O(unwrap(asobj(xs[k + 1]))); t.equals(f"control {k}", us[k], zeros(2), **kw); t.equals(f"state {k + 1}", a if zero else a[:3], zeros(4) if zero else r[k], **kw); t.equal(f"state dimension {k}", len(a), 4, **kw)
def masses(t, N, T, order):
    kw = dict(case=lambda env: dict(N=N, T=T, dt=mval(env, H)), base={"h": Fraction(1, 4)}, family="mass"); symnp.EXPM["fn"] = series(order); t.paths += 1
    def run():
        m = symnp.load("mass_model_np"); M = m.MassModel(N); return M.getLQT(dt=H, Tf=H * T + H * Fraction(1, 8))
    try: r = guard(t, "mass", kw, run)
    finally: symnp.EXPM["fn"] = None
    if r is None: return
    q, x0 = r; F, L = mass(N); n = 2 * N; P = eye(n); A = zeros(n, n); B = zeros(n, 2)
    for k in range(order + 1):
        A = A + P * Fraction(1, math.factorial(k)) * H ** k
        if k < order: B = B + mulo(P, L) * Fraction(1, math.factorial(k + 1)) * H ** (k + 1)
        P = mulo(P, F)
    xd = zeros(n); xd[0] = 1; xd[N if N % 2 == 0 else N - 1] = 1; t.equals("initial state", x0, xd, **kw)
    w = dict(F=A, L=B, X=eye(n), U=diag("1/10", "1/10"), c=zeros(n), H=eye(n), r=zeros(n), Z=eye(2), s=zeros(2), M=zeros(n, 2))
    for nm, b in (("XT", eye(n)), ("HT", eye(n)), ("rT", zeros(n))): t.equals(nm, getattr(q, nm), b, **kw)
    for nm, b in w.items():
        l = getattr(q, nm); t.equal(nm + " length", len(l), T, **kw)
        for k in range(T): t.equals(f"{nm} {k}", l[k], b, **kw)

import z3
class Fl:
    """positive floating-point number: exact real value; results of divisions and products carry a relative rounding error"""
    EPS = []
    def __init__(self, e): self.e = e
    @staticmethod
    def rnd(e):
        d = z3.Real(f"eps{len(Fl.EPS)}"); Fl.EPS.append(d); return Fl(e * (1 + d))
    @staticmethod
    def of(o): return o.e if isinstance(o, Fl) else z3.RealVal(Fraction(o))
    def __truediv__(self, o): return Fl.rnd(self.e / Fl.of(o))
    def __rtruediv__(self, o): return Fl.rnd(Fl.of(o) / self.e)
    def __mul__(self, o): return Fl.rnd(self.e * Fl.of(o))
    __rmul__ = __mul__
    def __add__(self, o): return Fl.rnd(self.e + Fl.of(o))
    __radd__ = __add__
    def __sub__(self, o): return Fl.rnd(self.e - Fl.of(o))
    def __neg__(self): return Fl(-self.e)
    def whole(self, e):
        """value of an integer expression: one path per value"""
        for v in range(0, 12):
            if zsym.CTX.branch(e == v): return v
        raise Unsupported("number of steps")
    def __int__(self): return self.whole(z3.ToInt(self.e))
    __trunc__ = __int__; __floor__ = __int__
    def __ceil__(self): return self.whole(-z3.ToInt(-self.e))
    def __round__(self, n=None): return self.whole(z3.ToInt(self.e + z3.RealVal("1/2")))
    def __floordiv__(self, o): return self.whole(z3.ToInt(self.e / Fl.of(o)))
    def rint(self): return Fl(z3.ToReal(z3.ToInt(self.e + z3.RealVal("1/2"))))
    def floor(self): return Fl(z3.ToReal(z3.ToInt(self.e)))
    def ceil(self): return Fl(-z3.ToReal(z3.ToInt(-self.e)))
    def astype(self, *a): return self.__int__()
def count(t, T, how):
    """the problem has T steps when the step length is the rounded quotient of final time and T, or the final time the rounded product"""
    a = z3.Real("a"); case = lambda mod: dict(T=T, how=how)
    def body():
        Fl.EPS = []; x = Fl(a)
        if how == "Tf/T": Tf, dt = x, x / T
        else: dt, Tf = x, x * T
        m = symnp.load("mass_model_np"); M = m.MassModel(1)
        class Disc:
            """discretisation replaced by its contract (C14)"""
            @staticmethod
            def lti_disc_u(F, *r, **k): return arr(eye(2)), arr(zeros(2, 2)), arr(eye(2))
        class NP:
            def __init__(self, q): self.q = q
            def __getattr__(self, n):
                if n in ("round", "rint", "around"): return lambda v, *r: v.rint() if isinstance(v, Fl) else getattr(self.q, n)(v, *r)
                if n in ("floor", "ceil"): return lambda v: getattr(v, n)() if isinstance(v, Fl) else getattr(self.q, n)(v)
                return getattr(self.q, n)
        keep = m.disc, m.np; m.disc = Disc; m.np = NP(m.np)
        try: return len(M.getLQT(dt=dt, Tf=Tf)[0].F), list(Fl.EPS)
        finally: m.disc, m.np = keep
    u = Fraction(1, 2 ** 53); zsym.CTX.max_paths = 400; eps = [z3.Real(f"eps{i}") for i in range(12)]
    small = [z3.And(e >= -z3.RealVal(u), e <= z3.RealVal(u)) for e in eps]; A0 = [a > 0] + small
    for pc, r, sc in zsym.explore(body, A0):
        t.paths += 1; A = A0 + pc
        if isinstance(r, zsym.Raised): t.n_obl += 1; raise r.ex
        t.prove("number of steps", z3.BoolVal(r[0] == T), A, case, family="steps")

def walk(t, N, toward=None):
    """each step has unit length and stays in the arena: any directions from the centre, or from next to a wall or corner reached by four given steps"""
    from checks.c24 import Draws, drawing
    from vlib.zsym import RealT
    k0 = 4 if toward else 0; n = N - 1 + k0; us = [Fraction(1, 2)] * k0 + [RealT.var(f"u{i}") for i in range(N - 1)]; case = lambda mod: dict(N=N, us=[mval(mod, u) for u in us] or [Fraction(1, 2)])
    asm = [z3.And(u.e >= 0, u.e < 1) for u in us[k0:]]
    cs = [tuple(RealT(z3.RealVal(str(v))) for v in toward or ())] * k0 + [(RealT.var(f"c{i}"), RealT.var(f"s{i}")) for i in range(N - 1)]
    circ = [z3.Real(f"c{i}") ** 2 + z3.Real(f"s{i}") ** 2 == 1 for i in range(N - 1)]; box = [z3.And(z3.Real(f"{q}{i}") >= -1, z3.Real(f"{q}{i}") <= 1) for q in "cs" for i in range(N - 1)]
    class Math:
        """the k-th direction's cosine and sine are the given or arbitrary ones"""
        def __init__(self): self.k = dict(cos=0, sin=0)
        def __getattr__(self, n): return getattr(math, n)
        def get(self, w):
            if self.k[w] >= n: raise Unsupported("more directions than steps")
            self.k[w] += 1; return cs[self.k[w] - 1][w == "sin"]
        def cos(self, x): return self.get("cos")
        def sin(self, x): return self.get("sin")
    def body():
        m = symnp.load("linear_model_np"); keep = m.math, m.np; mm = Math(); m.math = mm
        class NP:
            def __init__(self, q): self.q = q; self.cos, self.sin = mm.cos, mm.sin
            def __getattr__(self, n): return getattr(self.q, n)
        m.np = NP(m.np)
        try:
            with drawing(m, Draws(lambda k, n_: us[k], False)): return O(unwrap(asobj(m.LinearModel().genData(n + 1))))
        finally: m.math, m.np = keep
    zsym.CTX.max_paths = 3000; asm = asm + circ + box
    for pc, r, sc in zsym.explore(body, asm):
        t.paths += 1; A = asm + pc; z = zsym.zval
        if isinstance(r, zsym.Raised): t.n_obl += 1; t.report(f"raises {r.ex}", case(t.solve(A)[1]), "walk"); continue
        if r.shape != (2, n + 1): t.n_obl += 1; t.report(f"shape {r.shape}", case(t.solve(A)[1]), "walk"); continue
        t.prove("start", z3.And(z(r[0, 0]) == 5, z(r[1, 0]) == 5), A, case, family="walk")
        for k in range(n + 1): t.prove(f"arena {k}", z3.And(*[z3.And(z(v) >= z3.RealVal("1/2"), z(v) <= z3.RealVal("19/2")) for v in r[:, k]]), A, case, family="walk")
        for k in range(1, n + 1): t.prove(f"unit step {k}", (z(r[0, k]) - z(r[0, k - 1])) ** 2 + (z(r[1, k]) - z(r[1, k - 1])) ** 2 == 1, A, case, family="walk")

def clqt(t):
    base = {"t": Fraction(7, 3)}; tv = var("t"); kw = dict(case=lambda env: dict(t=mval(env, tv)), base=base, family="clqt"); t.paths += 1; W = 2 * math.pi / 50
    def harm(name):
        """sine or cosine of a multiple of the period-50 base frequency; frequencies equal up to rounding are the same"""
        def f(x):
            if not isinstance(x, Rat): x = R(x)
            k = coeff(x, tv, 1)
            if (x - k * tv).num or not k.is_const(): return ufn(name, x)
            k = float(k.value()) / W; i = round(k)
            return var(f"{name}{i}") if abs(k - i) < 1e-9 else ufn(name, x)
        return f
    class NP:
        def __init__(self, q): self.q = q; self.cos = harm("cos"); self.sin = harm("sin")
        def __getattr__(self, n): return getattr(self.q, n)
    def np_():
        m = symnp.load("linear_model_np"); keep = m.np; m.np = NP(keep)
        try: q, x0 = m.LinearModel().getCLQT(); return dict(x0=x0, T=q.T, XT=q.XT, HT=q.HT, rT=q.rT, **{n: getattr(q, n)(tv) for n in "FLXUcHr"})
        finally: m.np = keep
    a = guard(t, "clqt", kw, np_)
    if a is None: return
    keep = {k: tfsym.EW[k] for k in ("Cos", "Sin")}; tfsym.EW.update(Cos=harm("cos"), Sin=harm("sin"))
    try:
        m = tfsym.module("linear_model_tf")
        b = guard(t, "clqt", kw, lambda: tfsym.run(lambda tt: [f(tt) if callable(f) else tf.identity(f) for f in m.get_clqt()], O(tv)))
    finally: tfsym.EW.update(keep)
    if b is None: return
    for nm, w in zip(("x0", "T", "XT", "HT", "rT", "F", "L", "X", "U", "c", "H", "r"), b):
        t.equals("TensorFlow " + nm, w, a[nm], **kw)
        if nm in CL: t.equals(nm, a[nm], CL[nm], **kw)

def validate(t):
    for s in range(8):
        rng = random.Random(t.seed * 100 + s); fr = lambda *sh: Fr(np.array([Fraction(rng.randint(-20, 20), 4) for _ in range(int(np.prod(sh)))], dtype=object).reshape(sh)).tolist(); N = rng.randint(1, 4)
        for fam, case in (("tracking", dict(which="linear", steps=rng.randint(1, 12), xy=fr(2, N))), ("tracking", dict(which="nonlinear", steps=rng.randint(1, 12), xy=fr(3, N))), ("model", dict(lib="np", x=fr(2, 4), u=fr(2, 2), dt=Fraction(1, 3))), ("model", dict(lib="tf", x=fr(3, 4), u=fr(3, 2), dt=Fraction(1, 3))),
                          ("guess", dict(r=fr(5, 3), x0=fr(4), zero=bool(s % 2))), ("mass", dict(N=s + 1, T=rng.randint(1, 20), dt=Fraction(1, 20))), ("walk", dict(N=20, us=[rng.random() for _ in range(20)]))) + ((("clqt", dict(t=Fraction(3))), ("steps", dict(T=29))) if s == 0 else ()):
            t.validated += 1; bad, msg = chk.replays[fam](case)
            if bad: t.report("concrete validation: " + fam, case, fam)

if __name__ == "__main__":
    big = chk.tier == "thorough"
    for w in ("linear", "nonlinear"):
        for N, st in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 5), (4, 4)): chk.task(track, name=f"{w} tracking {N} points {st} steps", which=w, N=N, steps=st)
        chk.task(track, name=f"{w} tracking default steps", which=w, N=2, steps=10, dflt=True)
    for lib, B in (("np", 2), ("tf", 1), ("tf", 2), ("tf", 3)): chk.task(nonlin, name=f"nonlinear model {lib} batch {B}", lib=lib, B=B)
    chk.task(nonlin, name="nonlinear model tf default step", lib="tf", B=2, dflt=True)
    for T in (1, 2, 3): (chk.task(guess, name=f"guess T={T} from references", T=T, zero=False) if T < 3 else None); chk.task(guess, name=f"guess T={T} zero", T=T, zero=True)
    chk.task(guess, name="guess default", T=2, zero=True, dflt=True)
    for N in (1, 2, 3, 4) + ((5, 6) if big else (5,)): chk.task(masses, name=f"{N} masses", N=N, T=1 + N % 3, order=6 if N < 4 else 4)
    for T in (5, 6): chk.task(masses, name=f"mass horizon {T}", N=1, T=T, order=2)
    for T in range(1, 8): chk.task(count, name=f"steps for Tf/{T}", T=T, how="Tf/T"); chk.task(count, name=f"steps for {T}*dt", T=T, how="T*dt")
    for N in (1, 2, 3) + ((4,) if big else ()): chk.task(walk, name=f"generated trajectory N={N}", N=N)
    for w in ((1, 0), (-1, 0), (0, 1), (0, -1), ("-3/5", "4/5"), ("4/5", "-3/5")):
        for N in (2, 3) if big or w[1] in (0, -1) else (2,): chk.task(walk, name=f"generated trajectory towards {w} N={N}", N=N, toward=w)
    chk.task(clqt, name="continuous-time model in both libraries")
    chk.task(validate, name="translation validation")
    chk.main()
