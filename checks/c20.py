"""C20: Analytic Jacobians of the nonlinear models match their dynamics."""
import importlib, random
from fractions import Fraction
import numpy as np
from vlib.run import Check, Env, mval
from vlib import symnp, poly, jaxshim
from vlib.symnp import arr
from vlib.poly import var, R, diff, uf
symnp.DOMAIN["rat"] = True

chk = Check("C20",
    bounds_text="vehicle model: every state, control and step length (sine and cosine as uninterpreted functions with their derivatives, so every heading), batches of 1 to 4 points for TensorFlow; grid example models: every state and control, batches to shape (2,3), grids of 2 to 12 points",
    outside="rounding, other data types than double precision",
    explanation="dynamics and Jacobians of both libraries executed on symbolic states, controls and step lengths; the Jacobians asserted equal to the exact derivatives of the executed transition function, the transition function to the documented vehicle kinematics, and the example models of the two libraries to each other and to their documented formulas")
chk.assumptions = ["floating point modelled as exact real arithmetic", "TensorFlow kernels follow their documented semantics", "the decimal constant 0.1 of the velocity model is one tenth"]
def _imp():
    global tfsym, tf
    from vlib import tfsym
    import tensorflow as tf
    tfsym.module("nonlinear_model_tf"); tfsym.module("cnonlin_models_tf")
chk.setup.append(_imp)

# ------------------------------------------------------------------ vehicle model
def veh(x, u, dt, c, s):
    """position, heading and speed driven by acceleration and turn rate"""
    return [x[0] + x[3] * c(x[2]) * dt, x[1] + x[3] * s(x[2]) * dt, x[2] + u[1] * dt, x[3] + u[0] * dt]
Fl = lambda v: [Fl(i) for i in v] if isinstance(v, list) else float(Fraction(v))
@chk.family("veh")
def replay(case):
    """central differences of the real transition function at the failing point and at points around it"""
    dt0 = Fl(case["dt"]); xs0, us0 = np.array(Fl(case["x"])), np.array(Fl(case["u"])); lib, part = case["lib"], case["part"]
    rng = np.random.default_rng(3)
    for trial in range(8):
        sc = 0 if trial == 0 else 0.7
        xs = xs0 + sc * rng.normal(size=xs0.shape); us = us0 + sc * rng.normal(size=us0.shape); dt = dt0 if trial < 4 and dt0 else 0.1 + 0.2 * trial
        if np.abs(xs).max() > 1e6 or np.abs(us).max() > 1e6: xs, us = np.tanh(xs), np.tanh(us)
        try:
            if lib == "np":
                m = importlib.import_module("parallel_control.nonlinear_model_np").NonlinearModel(dt)
                f, Fx, Fu = [(lambda g: lambda a, b: np.stack([np.asarray(g(i, j), dtype=float) for i, j in zip(a, b)]))(g) for g in (m.f, m.Fx, m.Fu)]
            else:
                _imp(); m = importlib.import_module("parallel_control.nonlinear_model_tf"); c = lambda a: tf.constant(a, tf.float64)
                d = c(dt)
                f, Fx, Fu = [(lambda g: lambda a, b: g(c(a), c(b), d).numpy())(g) for g in (m.nonlinear_model_f, m.nonlinear_model_Fx, m.nonlinear_model_Fu)]
            want = np.stack([veh(x, u, dt, np.cos, np.sin) for x, u in zip(xs, us)])
            if part == "f":
                g = f(xs, us)
                if g.shape != want.shape: return True, f"{lib} transition function has shape {g.shape} instead of {want.shape}"
                if not np.allclose(g, want, rtol=1e-9, atol=1e-9): return True, f"{lib} transition function at x={xs.tolist()} u={us.tolist()} dt={dt} gives {g.tolist()} instead of {want.tolist()}"
            else:
                J = (Fx if part == "Fx" else Fu)(xs, us); n = 4 if part == "Fx" else 2; h = 1e-5
                if J.shape != (len(xs), 4, n): return True, f"{lib} {part} has shape {J.shape}"
                for j in range(n):
                    e = np.zeros(n); e[j] = h
                    num = (f(xs + e, us) - f(xs - e, us)) / (2 * h) if part == "Fx" else (f(xs, us + e) - f(xs, us - e)) / (2 * h)
                    if not np.allclose(J[:, :, j], num, rtol=1e-5, atol=1e-5 * (1 + np.abs(xs).max() * abs(dt))): return True, f"{lib} {part} column {j} at x={xs.tolist()} u={us.tolist()} dt={dt} is {J[:, :, j].tolist()}, differences of the transition function give {num.tolist()}"
        except Exception as ex: return True, f"{lib} {part} raises {type(ex).__name__}: {str(ex)[-300:]}"
    return False, "agrees"

def vs(nm, *s):
    o = np.empty(s, dtype=object)
    for p in np.ndindex(*s): o[p] = var(nm + "_".join(map(str, p)))
    return o
def vehicle(t, lib, part, N=1):
    t.paths += 1; X, U, dt = vs("x", N, 4), vs("u", N, 2), var("dt")
    base = {v: Fraction(1, 3) + Fraction(i, 7) for i, v in enumerate(poly.VARS)}; base["dt"] = Fraction(1, 4)
    kw = dict(case=lambda env: dict(x=mval(env, X), u=mval(env, U), dt=mval(env, dt), lib=lib, part=part), base=base)
    n = 4 if part == "Fx" else 2
    try:
        if lib == "np":
            m = symnp.load("nonlinear_model_np").NonlinearModel(dt)
            go = lambda g: np.stack([np.asarray(symnp.unwrap(symnp.asobj(getattr(m, g)(arr(X[i].copy()), arr(U[i].copy())))), dtype=object) for i in range(N)])
        else:
            m = tfsym.module("nonlinear_model_tf")
            go = lambda g: np.asarray(symnp.unwrap(tfsym.run(lambda x, u, d: getattr(m, "nonlinear_model_" + g)(x, u, d), arr(X.copy(), 'f'), arr(U.copy(), 'f'), arr(np.array(dt, dtype=object), 'f'))), dtype=object)
        f = go("f"); J = go(part) if part != "f" else None
    except (ValueError, TypeError, IndexError, AttributeError) as ex:
        t.n_obl += 1
        return t.report(f"raises {type(ex).__name__}: {ex}", kw["case"](Env({v: base.get(v, Fraction(1, 5)) for v in poly.VARS})))
    if part == "f":
        t.equals("transition", f, np.array([veh(X[i], U[i], dt, lambda a: uf("cos", a), lambda a: uf("sin", a)) for i in range(N)], dtype=object), **kw)
        return
    t.equal(part + " shape", str(J.shape), str((N, 4, n)), **kw) if J.shape != (N, 4, n) else None
    if J.shape != (N, 4, n): return
    Z = X if part == "Fx" else U
    for i in range(N):
        for a in range(4):
            for j in range(n): t.equal(f"{part}[{i},{a},{j}]", J[i, a, j], diff(f[i, a], Z[i, j]) if isinstance(f[i, a], poly.Rat) else 0, **kw)

# ------------------------------------------------------------------ grid example models
FORM = {  # documented formulas: dynamics, running and final cost, horizon, grid ranges
    "linear_model": (lambda x, u: x + u, lambda x, u: (x * x + u * u) * Fraction(1, 2), lambda x: x * x, 1, (-2, 2), (-2, 2)),
    "velocity_model": (lambda x, u: 1 - x * x * Fraction(1, 10) + u, lambda x, u: (x * x + u * u) * Fraction(1, 2), lambda x: x * x * 2, 1, (-3, 3), (-2, 2)),
    "upwind_model": (lambda x, u: u * x, lambda x, u: x * 0, lambda x: -x, 1, (-1, 1), (0, 1))}
@chk.family("grid")
def replay_grid(case):
    f, L, LT, T, rx, ru = FORM[case["model"]]; x, u = np.array(Fl(case["x"])), np.array(Fl(case["u"])); nx, nu, lib = int(case["nx"]), int(case["nu"]), case["lib"]
    F = lambda g: (lambda *a: np.vectorize(lambda *b: float(g(*[Fraction(float(i)) for i in b])))(*a))
    rng = np.random.default_rng(5)
    try:
        for trial in range(4):
            if trial: x, u = rng.normal(size=x.shape) * 2, rng.normal(size=u.shape) * 2
            if lib == "np":
                import jax; jax.config.update("jax_enable_x64", True)
                m = importlib.import_module("parallel_control.cnonlin_models_np"); c = lambda a: a
            else: _imp(); m = importlib.import_module("parallel_control.cnonlin_models_tf"); c = lambda a: tf.constant(a, tf.float64)
            g = getattr(m, case["model"])(nx, nu)
            for nm, a, w in (("dynamics", g[0](c(x), c(u)), F(f)(x, u)), ("running cost", g[1](c(x), c(u)), F(L)(x, u)), ("final cost", g[2](c(x)), F(LT)(x)), ("horizon", g[3], float(T)),
                             ("state grid", g[4], np.linspace(*rx, nx)), ("control grid", g[5], np.linspace(*ru, nu))):
                a = np.asarray(a)
                if "grid" in nm and a.shape != np.shape(w): return True, f"{lib} {case['model']} {nm} has {a.shape} points instead of {np.shape(w)}"
                if not np.allclose(a, w, rtol=1e-9, atol=1e-9): return True, f"{lib} {case['model']} {nm} is {a.tolist()} instead of {np.asarray(w).tolist()} at x={x.tolist()} u={u.tolist()}"
    except Exception as ex: return True, f"{lib} {case['model']} raises {type(ex).__name__}: {str(ex)[-300:]}"
    return False, "agrees"
def grid(t, lib, model, shape, nx, nu):
    t.paths += 1; f, L, LT, T, rx, ru = FORM[model]; X, U = vs("x", *shape), vs("u", *shape)
    base = {v: Fraction(1, 3) + Fraction(i, 7) for i, v in enumerate(poly.VARS)}
    kw = dict(case=lambda env: dict(x=mval(env, X), u=mval(env, U), model=model, nx=nx, nu=nu, lib=lib), base=base, family="grid")
    try:
        if lib == "np":
            jaxshim.install()
            g = getattr(symnp.load("cnonlin_models_np"), model)(nx, nu)
            r = [g[0](arr(X.copy()), arr(U.copy())), g[1](arr(X.copy()), arr(U.copy())), g[2](arr(X.copy()))] + list(g[3:])
        else:
            m = tfsym.module("cnonlin_models_tf")
            def h(x, u):
                g = getattr(m, model)(nx, nu); return g[0](x, u), g[1](x, u), g[2](x), g[3], g[4], g[5]
            r = tfsym.run(h, arr(X.copy(), 'f'), arr(U.copy(), 'f'))
    except (ValueError, TypeError, IndexError, AttributeError) as ex:
        t.n_obl += 1
        return t.report(f"raises {type(ex).__name__}: {ex}", kw["case"](Env({v: base.get(v, Fraction(1, 5)) for v in poly.VARS})), "grid")
    mp = lambda g, *a: np.array([g(*[b[p] for b in a]) for p in np.ndindex(*shape)], dtype=object).reshape(shape)
    lin = lambda r, n: np.array([Fraction(r[0]) + Fraction(r[1] - r[0], n - 1) * i for i in range(n)], dtype=object)
    B = lambda v, w: np.broadcast_to(np.asarray(symnp.unwrap(symnp.asobj(v)), dtype=object), w.shape) if np.asarray(symnp.unwrap(symnp.asobj(v))).size == 1 else v
    for nm, a, w in zip(("dynamics", "running cost", "final cost"), r, (mp(f, X, U), mp(L, X, U), mp(LT, X))): t.equals(nm, B(a, w), w, **kw)
    t.equal("horizon", np.asarray(symnp.unwrap(symnp.asobj(r[3]))).item(), T, **kw)
    t.equals("state grid", r[4], lin(rx, nx), **kw); t.equals("control grid", r[5], lin(ru, nu), **kw)

def validate(t):
    for s in range(4):
        rng = random.Random(t.seed * 10 + s); q = lambda *sh: [[Fraction(rng.randint(-20, 20), 7) for _ in range(sh[1])] for _ in range(sh[0])]
        N = rng.randint(1, 3)
        for lib in ("np", "tf"):
            for part in ("f", "Fx", "Fu"):
                case = dict(x=q(N, 4), u=q(N, 2), dt=Fraction(rng.randint(1, 9), 10), lib=lib, part=part); t.validated += 1
                bad, msg = replay(dict(case))
                if bad: t.report("concrete validation", case)
def validate2(t):
    for s in range(4):
        rng = random.Random(t.seed * 10 + s); q = lambda *sh: [[Fraction(rng.randint(-20, 20), 7) for _ in range(sh[1])] for _ in range(sh[0])]
        for lib in ("np", "tf"):
            for model in FORM:
                case = dict(x=q(2, 3), u=q(2, 3), model=model, nx=rng.randint(2, 30), nu=rng.randint(2, 30), lib=lib); t.validated += 1
                bad, msg = replay_grid(dict(case))
                if bad: t.report("concrete validation", case, "grid")

if __name__ == "__main__":
    big = chk.tier == "thorough"
    for lib in ("np", "tf"):
        for part in ("f", "Fx", "Fu"):
            for N in ((1, 2, 4) if lib == "tf" else (1, 2)) + ((7,) if big else ()): chk.task(vehicle, name=f"vehicle {lib} {part} N={N}", lib=lib, part=part, N=N)
        for model in FORM:
            for shape, nx, nu in (((1,), 2, 3), ((3,), 5, 4), ((2, 3), 12, 2)): chk.task(grid, name=f"{model} {lib} {shape} {nx} {nu}", lib=lib, model=model, shape=shape, nx=nx, nu=nu)
    chk.task(validate, name="translation validation (vehicle)"); chk.task(validate2, name="translation validation (grid models)")
    chk.main()
