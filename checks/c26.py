"""C26: Continuous-time example models, direct shooting and block value functions."""
import importlib, random, contextlib, io
from fractions import Fraction
import numpy as np, z3
from vlib.run import Check, Env, mval
from vlib import symnp, poly, jaxshim, zsym
from vlib.symnp import arr, unwrap, asobj, osolve
from vlib.zsym import RealT, zval
from vlib.poly import var, ufn, Rat

chk = Check("C26",
    bounds_text="shooting cost and constraint: every drift and running cost (uninterpreted functions of state and control), horizon, end states and control parameters, 1 to 5 steps, TensorFlow batches of 1 to 3; "
                "block values by shooting: linear drift and quadratic cost with symbolic coefficients, symbolic grid states, 2 and 3 grid points, 1 to 3 steps, 1 to 3 iterations, 1 to 3 blocks; "
                "closed-form block values: every grid of up to 3 states of any sign and every block length; example models: every state and control, grid sizes 2 to 12",
    outside="larger grids and step counts (except concrete step counts for rounding), convergence of the shooting iteration on nonlinear problems, rounding",
    explanation="shooting functions executed with uninterpreted models and asserted equal to classical fourth-order Runge-Kutta steps of state and cost under the piecewise linear control; shooting block values asserted equal to the exact constrained minimum; closed-form block values asserted zero exactly on the reachable states; both libraries")
chk.assumptions = ["floating point modelled as exact real arithmetic", "TensorFlow kernels follow their documented semantics", "JAX transformations modelled as exact derivatives of the executed code", "factorisation followed by solve modelled as exact solution", "the exponential is an arbitrary function with value at least one at non-negative arguments"]
def _imp():
    global tfsym, tf
    from vlib import tfsym
    import tensorflow as tf
    for m in ("hjb_grid_1d_tf", "cnonlin_models_tf", "sqp_tf"): tfsym.module(m)
chk.setup.append(_imp)
O = lambda x: np.asarray(x, dtype=object)
Fq = lambda v: np.vectorize(Fraction, otypes=[object])(O(v)) if O(v).size else O(v)
fl = lambda a: np.vectorize(float, otypes=[float])(O(a)) if O(a).size else np.zeros(O(a).shape)
@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()): yield

# ------------------------------------------------------------------ oracle
def shoot(g, L, T, x, xf, us, steps):
    """state and cost by classical Runge-Kutta steps under u = us[i](s) for the time s since the start of step i"""
    h, c = T / steps, 0; hf, sx = Fraction(1, 2), Fraction(1, 6)
    for i in range(steps):
        u0, um, u1 = us[i](0), us[i](h * hf), us[i](h)
        k1 = g(x, u0); l1 = L(x, u0); x2 = x + hf * h * k1
        k2 = g(x2, um); l2 = L(x2, um); x3 = x + hf * h * k2
        k3 = g(x3, um); l3 = L(x3, um); x4 = x + h * k3
        k4 = g(x4, u1); l4 = L(x4, u1)
        x, c = x + h * sx * (k1 + 2 * k2 + 2 * k3 + k4), c + h * sx * (l1 + 2 * l2 + 2 * l3 + l4)
    return c, x - xf
def controls(form, th, T, steps):
    if form == 1: return [(lambda a, b: lambda s: a + b * s)(th[2 * i], th[2 * i + 1]) for i in range(steps)]
    us, u, h = [], th[0], T / steps
    for i in range(steps): us.append((lambda u, b: lambda s: u + b * s)(u, th[1 + i])); u = u + th[1 + i] * h
    return us
NTH = lambda form, steps: 2 * steps if form == 1 else steps + 1
def fc(form, g, L, T, x0, xf, th, steps): return shoot(g, L, T, x0, xf, controls(form, th, T, steps), steps)

# ------------------------------------------------------------------ shooting functions
def call_fc(lib, form, g, L, T, x0, xf, th, real, batch):
    """x0, xf: vectors; th: one row per pair"""
    if lib == "np":
        if real:
            import jax; jax.config.update("jax_enable_x64", True); import jax.numpy as jnp
            m = importlib.import_module("parallel_control.hjb_grid_1d_np"); A = lambda v: jnp.asarray(fl(v)); N = float
        else: jaxshim.install(); m = symnp.load("hjb_grid_1d_np"); A = lambda v: arr(O(v).copy()); N = lambda v: v
        rs = []
        for i in range(len(x0)):
            a = (A(th[i][0::2]), A(th[i][1::2])) if form == 1 else (A(th[i]),)
            rs.append(getattr(m, f"fun_and_con_{form}")(g, L, N(T), N(x0[i]), N(xf[i]), *a))
        o = (lambda v: np.asarray(v, dtype=float)) if real else (lambda v: unwrap(asobj(v)))
        return np.stack([o(r[0]) for r in rs]), np.stack([o(r[1]) for r in rs])
    m = importlib.import_module("parallel_control.hjb_grid_1d_tf") if real else tfsym.module("hjb_grid_1d_tf")
    def f(T, x0, xf, th): return getattr(m, f"fun_and_con_{form}")(g, L, T, x0, xf, *((th[..., 0::2], th[..., 1::2]) if form == 1 else (th,)))
    args = [O(T), O(x0), O(xf), O(th)]
    if real: return [np.asarray(v) for v in f(*[tf.constant(fl(v), tf.float64) for v in args])]
    return [unwrap(asobj(v)) for v in tfsym.run(f, *[arr(v.copy(), 'f') for v in args])]
GC = lambda s: (lambda x, u: 0.3 * x * x - 0.7 * x * u + 0.4 * u + s, lambda x, u: x * x * u + 0.5 * u * u * (1 + 0.2 * s) + x - 0.25 * s)
@chk.family("shoot")
def replay(case):
    lib, form, steps = case["lib"], int(case["form"]), int(case["steps"]); T, x0, xf, th = Fraction(case["T"]), Fq(case["x0"]), Fq(case["xf"]), Fq(case["th"])
    for s in (0.0, 1.0, -0.5)[:1 if case.get('short') else 3]:
        g, L = GC(s)
        for k in range(1 if case.get('short') else 3):
            c = lambda v: float(v) if k == 0 else ((float(v) * 0.37 + k * 0.21) if k == 1 else float(v) * -0.11 + 0.4)
            X, XF, TH = [np.vectorize(c, otypes=[float])(v) for v in (x0, xf, th)]; Tc = float(T) if k == 0 else abs(float(T)) % 1.9 + 0.3
            w = [fc(form, g, L, Tc, a, b, q, steps) for a, b, q in zip(X, XF, TH)]
            if not np.all(np.abs(np.asarray(w)) < 1e6): continue
            try: r = call_fc(lib, form, g, L, Tc, X, XF, TH, True, len(X))
            except Exception as ex: return True, f"{lib} fun_and_con_{form} with T={Tc} and {steps} steps raises {type(ex).__name__}: {str(ex)[-300:]}"
            for nm, a, b in (("cost", r[0], [i[0] for i in w]), ("constraint", r[1], [[i[1]] for i in w])):
                a, b = np.asarray(a), np.asarray(b)
                if a.shape != b.shape: return True, f"{lib} fun_and_con_{form} {nm} has shape {a.shape}"
                if not np.all(np.abs(a - b) <= 1e-7 * (1 + np.abs(b).max())): return True, f"{lib} fun_and_con_{form} {nm} is {a.tolist()} instead of {b.tolist()} with T={Tc}, {steps} steps, x0={X.tolist()}, xf={XF.tolist()}, parameters {TH.tolist()}"
    return False, "agrees"
def base():
    rng = random.Random(5)
    return {v: (Fraction(rng.randint(3, 9), 4) if v == "T" else Fraction(rng.choice([-5, -3, -2, 2, 3, 5]), 4)) for v in poly.VARS}
def vec(nm, *s):
    o = np.empty(s, dtype=object)
    for p in np.ndindex(*s): o[p] = var(nm + "_".join(map(str, p)))
    return o
def guarded(t, case, family, f):
    try: return f()
    except (ValueError, TypeError, IndexError, AttributeError, NotImplementedError) as ex:
        t.n_obl += 1; t.report(f"raises {type(ex).__name__}: {ex}", case(Env(base())), family)
def shooting(t, lib, form, steps, N):
    t.paths += 1; T, x0, xf, th = var("T"), vec("x", N), vec("y", N), vec("th", N, NTH(form, steps))
    case = lambda env: dict(lib=lib, form=form, steps=steps, T=mval(env, T), x0=mval(env, x0), xf=mval(env, xf), th=mval(env, th))
    sc = lambda v: v.item() if isinstance(v, np.ndarray) else v
    g0, L0 = lambda x, u: ufn("g", x, u), lambda x, u: ufn("L", x, u)
    if lib == "np": w_ = lambda h: (lambda x, u: h(sc(unwrap(asobj(x))), sc(unwrap(asobj(u)))))
    else:
        def w_(h):
            def q(x, u):
                r = tf.numpy_function(lambda a, b: O([h(i, j) for i, j in zip(unwrap(asobj(a)), unwrap(asobj(b)))]), [x, u], tf.float64); r.set_shape(x.shape); return r
            return q
    r = guarded(t, case, "shoot", lambda: call_fc(lib, form, w_(g0), w_(L0), T, x0, xf, th, False, N))
    if r is None: return
    w = [fc(form, g0, L0, T, a, b, q, steps) for a, b, q in zip(x0, xf, th)]; kw = dict(case=case, base=base(), family="shoot")
    for nm, a, b in (("cost", r[0], O([i[0] for i in w])), ("constraint", r[1], O([[i[1]] for i in w]))):
        if a.shape != b.shape: t.n_obl += 1; t.report(f"{nm} shape {a.shape}", case(Env(base())), "shoot"); continue
        t.equals(nm, a, b, **kw)

# ------------------------------------------------------------------ block values by shooting
# drift a x + b u + e + k x^2, running cost q x^2 + r u^2 + s x u + p x
def lq(v): a, b, e, q, r, s, p, k = v; return (lambda x, u: a * x + b * u + e + k * x * x), (lambda x, u: q * x * x + r * u * u + s * x * u + p * x)
def blockval(form, cf, T, x0, xf, steps):
    """cost after one Newton step from zero controls on minimising the cost subject to the end state: the minimum for linear drift (quadratic cost, affine end state)"""
    n = NTH(form, steps); g, L = lq(cf); th = [poly.var(f"__th{i}") for i in range(n)]; z = {poly.v_index(v): Rat.const(0) for v in th}
    c, d = [Rat.lift(v) for v in fc(form, g, L, T, x0, xf, th, steps)]
    at = lambda r, vals=z: poly.compose(r, vals); D = lambda r, v: Rat.lift(poly.diff(r, v))
    M = np.zeros((n + 1, n + 1), dtype=object); b = np.zeros((n + 1, 1), dtype=object)
    for i in range(n):
        ci = D(c, th[i]); b[i, 0] = -at(ci); M[i, n] = M[n, i] = at(D(d, th[i]))
        for j in range(n): M[i, j] = at(D(ci, th[j]))
    b[n, 0] = -at(d); s = osolve(M, b)[:n, 0]
    return at(c, {poly.v_index(v): Rat.lift(w) for v, w in zip(th, s)})
def call_bv(lib, part, cf, T, grid0, gridf, steps, iters, blocks, real):
    if lib == "np":
        if real:
            import jax; jax.config.update("jax_enable_x64", True); import jax.numpy as jnp
            m = importlib.import_module("parallel_control.hjb_grid_1d_np"); A = lambda v: jnp.asarray(fl(v)); g, L = lq([float(v) for v in cf]); T = float(T)
        else: jaxshim.install(); m = symnp.load("hjb_grid_1d_np"); A = lambda v: arr(O(v).copy()); g, L = lq(cf)
        with quiet():
            if part.startswith("V_eval"): r = getattr(m, part)(g, L, T, steps, A(grid0), A(gridf), iters)
            else:
                kw = {} if part == "default" else dict(method=int(part[-1]))
                r = m.HJB_Grid_1d(g, L, None, T, blocks, steps, A(grid0)).directShootingValueFunction(max_iter=iters, **kw)
        return np.asarray(r, dtype=float) if real else unwrap(asobj(r))
    m = importlib.import_module("parallel_control.hjb_grid_1d_tf") if real else tfsym.module("hjb_grid_1d_tf")
    def f(cf, T, a, b):
        g, L = lq([cf[i] for i in range(8)])
        return m.direct_shooting_block_V(g, L, T, steps, a, iters) if part == "default" else getattr(m, part)(g, L, T, steps, a, b, iters)
    args = [O(cf), O(T), O(grid0), O(gridf)]
    keep, m.sqp_tf = m.sqp_tf, SQPC if real else SQP          # the SQP iteration itself is decided by C21
    try: return np.asarray(f(*[tf.constant(fl(v), tf.float64) for v in args])) if real else unwrap(asobj(tfsym.run(f, *[arr(v.copy(), 'f') for v in args])))
    finally: m.sqp_tf = keep
class SQP:
    """contract of the batched SQP iteration: Newton's method on the optimality conditions of every element, multipliers starting at zero"""
    @staticmethod
    def local_eq_fast(fun, con, theta0, par, num_iter=10, batch=False):
        B, n = theta0.shape; K = int(num_iter)
        if not batch: raise ValueError("unbatched call with a batch of problems")
        names = [[f"__nt{b}_{i}" for i in range(n)] for b in range(B)]
        tv = tf.numpy_function(lambda z: O([[poly.var(v) for v in r] for r in names]), [theta0], tf.float64); tv.set_shape((B, n))
        f, c = fun(tv, par), con(tv, par)
        def steps(t0, f, c):
            out, f, c, t0 = [], [unwrap(asobj(v)) for v in (f, c)][0], unwrap(asobj(c)), unwrap(asobj(t0)); m = c.shape[1]
            if f.shape != (B,) or c.shape[0] != B: raise ValueError(f"objective of shape {f.shape} and constraints of shape {c.shape} for {B} problems")
            for b in range(B):
                vs = [poly.var(v) for v in names[b]]; th = list(t0[b]); lam = [0] * m; D = lambda r, v: Rat.lift(poly.diff(Rat.lift(r), v)); its = []
                for _ in range(K):
                    env = {poly.v_index(v): Rat.lift(symnp._fx(w)) for v, w in zip(vs, th)}; at = lambda r: poly.compose(Rat.lift(r), env)
                    M, w = np.zeros((n + m, n + m), dtype=object), np.zeros((n + m, 1), dtype=object)
                    for i in range(n):
                        w[i, 0] = -at(D(f[b], vs[i]))
                        for k in range(m): M[i, n + k] = -at(D(c[b, k], vs[i])); M[n + k, i] = -M[i, n + k]
                        for j in range(n): M[i, j] = at(D(D(f[b], vs[i]), vs[j])) - sum(lam[k] * at(D(D(c[b, k], vs[i]), vs[j])) for k in range(m))
                    for k in range(m): w[n + k, 0] = -at(c[b, k])
                    s = osolve(M, w)[:, 0]; th = [a + d for a, d in zip(th, s[:n])]; lam = list(s[n:]); its.append(th)
                out.append(its)
            return np.transpose(O(out), (1, 0, 2))
        th = tf.numpy_function(steps, [theta0, f, c], tf.float64); th.set_shape((K, B, n))
        return th, tf.zeros((K, B, 1), tf.float64), tf.zeros((K,), tf.float64)
class SQPC:
    """the same contract in floating point (tracing the second derivatives of the shooting functions takes minutes)"""
    @staticmethod
    def local_eq_fast(fun, con, theta0, par, num_iter=10, batch=False):
        B, n = theta0.shape; K = int(num_iter); h = 1e-3; I = np.eye(n) * h; pts = [np.zeros(n)] + [s * I[i] for i in range(n) for s in (1, -1)] + [s * I[i] + r * I[j] for i in range(n) for j in range(i) for s in (1, -1) for r in (1, -1)]
        lam = None; th = theta0; its = []
        for _ in range(min(K, 3)):
            f = tf.stack([fun(th + tf.constant(p[None], tf.float64), par) for p in pts]); c = tf.stack([con(th + tf.constant(p[None], tf.float64), par) for p in pts])
            def step(t0, f, c, lam):
                m = c.shape[2]; nt, nl = t0.copy(), np.zeros((B, m))
                def ders(y):
                    g = np.array([(y[1 + 2 * i] - y[2 + 2 * i]) / (2 * h) for i in range(n)]); H = np.zeros((n, n)); q = 1 + 2 * n
                    for i in range(n):
                        H[i, i] = (y[1 + 2 * i] + y[2 + 2 * i] - 2 * y[0]) / h ** 2
                        for j in range(i): H[i, j] = H[j, i] = (y[q] - y[q + 1] - y[q + 2] + y[q + 3]) / (4 * h * h); q += 4
                    return g, H
                for b in range(B):
                    g, H = ders(f[:, b]); J = []
                    for k in range(m): gc, Hc = ders(c[:, b, k]); J.append(gc); H = H - lam[b, k] * Hc
                    J = np.array(J); M = np.block([[H, -J.T], [J, np.zeros((m, m))]]); s = np.linalg.solve(M, np.concatenate([-g, -c[0, b]])); nt[b] += s[:n]; nl[b] = s[n:]
                return nt, nl
            if lam is None: lam = tf.zeros_like(con(th, par))
            th, lam2 = tf.numpy_function(step, [th, f, c, lam], [tf.float64, tf.float64]); th.set_shape((B, n)); lam2.set_shape(lam.shape); lam = lam2; its.append(th)
        its += [th] * (K - len(its))
        return tf.stack(its), tf.zeros((K, B, 1), tf.float64), tf.zeros((K,), tf.float64)
FORM = lambda part: 2 if part in ("default", "V_eval_2", "method2") else 1
@chk.family("block")
def replay_block(case):
    lib, part, steps, iters, blocks = case["lib"], case["part"], int(case["steps"]), int(case["iters"]), int(case["blocks"]); cf, T = Fq(case["cf"]), Fraction(case["T"]); g0, gf = Fq(case["g0"]), Fq(case["gf"])
    try: w = np.array([[float(Rat.lift(blockval(FORM(part), cf, T / blocks, a, b, steps)).value()) for b in gf] for a in g0])
    except (ZeroDivisionError, np.linalg.LinAlgError): return False, "singular"
    try: r = call_bv(lib, part, cf, T, g0, gf, steps, iters, blocks, True)
    except Exception as ex: return True, f"{lib} {part} raises {type(ex).__name__}: {str(ex)[-300:]}"
    if r.shape != w.shape: return True, f"{lib} {part} has shape {r.shape} instead of {w.shape}"
    if not np.all(np.abs(r - w) <= 1e-5 * (1 + np.abs(w).max())): return True, f"{lib} {part} block values {r.tolist()} instead of the constrained minimum {w.tolist()} for drift and cost coefficients {fl(cf).tolist()}, T={float(T)}, {steps} steps, {blocks} blocks, grids {fl(g0).tolist()} {fl(gf).tolist()}"
    return False, "agrees"
CF = [Fraction(1, 2), Fraction(3, 4), Fraction(-1, 4), Fraction(1, 2), Fraction(3, 4), Fraction(1, 4), Fraction(1, 4), Fraction(0)]
def block(t, lib, part, n0, nf, steps, iters, blocks=1, sym=(), Tsym=False, quad=False):
    t.paths += 1; cf = O(list(CF)); cf[7] = Fraction(-1, 10) if quad else Fraction(0); T = var("T") if Tsym else Fraction(3, 2)
    for i in sym: cf[i] = var(f"cf{i}")
    same = part[:1] != "V"; g0 = vec("x", n0)
    if quad: g0 = O([Fraction(i * 3 - 1, 4) for i in range(n0)]) if "x" not in quad else g0
    gf = g0 if same else vec("y", nf)
    case = lambda env: dict(lib=lib, part=part, steps=steps, iters=iters, blocks=blocks, cf=mval(env, cf), T=mval(env, T), g0=mval(env, g0), gf=mval(env, gf))
    r = guarded(t, case, "block", lambda: call_bv(lib, part, cf, T, g0, gf, steps, iters, blocks, False))
    if r is None: return
    if r.shape != (len(g0), len(gf)): t.n_obl += 1; return t.report(f"shape {r.shape}", case(Env(base())), "block")
    kw = dict(case=case, base=base(), family="block")
    for i, a in enumerate(g0):
        for k, b in enumerate(gf): t.equal(f"V[{i},{k}]", r[i, k], blockval(FORM(part), cf, T / blocks, a, b, steps), **kw)

# ------------------------------------------------------------------ closed-form block values
def call_up(lib, inf, dt, grid, real):
    if lib == "np":
        if real:
            import jax; jax.config.update("jax_enable_x64", True); import jax.numpy as jnp
            return np.asarray(importlib.import_module("parallel_control.cnonlin_models_np").upwind_model_block_V(float(inf), float(dt), jnp.asarray(fl(grid))), dtype=float)
        jaxshim.install(); return unwrap(asobj(symnp.load("cnonlin_models_np").upwind_model_block_V(inf, dt, arr(O(grid).copy()))))
    m = importlib.import_module("parallel_control.cnonlin_models_tf") if real else tfsym.module("cnonlin_models_tf")
    args = [O(inf), O(dt), O(grid)]
    if real: return np.asarray(m.upwind_model_block_V(*[tf.constant(fl(v), tf.float64) for v in args]))
    return unwrap(asobj(tfsym.run(lambda a, b, c: m.upwind_model_block_V(a, b, c), *[arr(v.copy(), 'f') for v in args])))
def reach(x, y, a): return (x <= y <= a * x) if x > 0 else (a * x <= y <= x)
@chk.family("reach")
def replay_reach(case):
    inf, a, grid, lib = Fraction(case["inf"]), Fraction(case["a"]), Fq(case["grid"]), case["lib"]
    dt = float(np.log(float(a)))
    try: r = call_up(lib, inf, dt, grid, True)
    except Exception as ex: return True, f"{lib} upwind_model_block_V raises {type(ex).__name__}: {str(ex)[-300:]}"
    n = len(grid)
    if r.shape != (n, n): return True, f"{lib} upwind_model_block_V has shape {r.shape}"
    for i in range(n):
        for k in range(n):
            x, y = float(grid[i]), float(grid[k]); w = [0.0 if reach(x, y, b) else float(inf) for b in (float(a), np.exp(dt))]
            if all(abs(r[i, k] - v) > 1e-9 * (1 + abs(v)) for v in w) or not np.isfinite(r[i, k]): return True, f"{lib} upwind_model_block_V from {x} to {y} with exp(block_dt) = {float(a)} is {r[i, k]} instead of {w[0]}"
    return False, "agrees"
def upwind(t, lib, n, dup=False):
    zsym.DOMAIN["plainexp"] = True
    from checks.c22 import RV, go, pref, shape_bad
    G = RV("x", n); inf, dt = RealT.var("inf"), RealT.var("dt")
    if dup: G[1] = G[0]
    ex = zsym.uf1("exp", dt); a = zval(ex); asm = [a >= 1, zval(dt) >= 0, zval(inf) > 0]
    case = lambda mod: dict(lib=lib, inf=mval(mod, inf), a=mval(mod, ex), grid=mval(mod, G)); pr = [z3.And(z3.Or(a == 2, a == 4, a == 1), *[z3.And(zval(v) >= -20, zval(v) <= 20, zval(v) * 4 == z3.ToReal(z3.ToInt(zval(v) * 4))) for v in G])]
    for A, r in go(t, lambda: call_up(lib, inf, dt, G, False), case, "reach", asm):
        if shape_bad(t, r, (n, n), A, case, "reach"): continue
        for i in range(n):
            for k in range(n):
                x, y = zval(G[i]), zval(G[k])
                R = z3.If(x > 0, z3.And(x <= y, y <= a * x), z3.And(a * x <= y, y <= x))
                t.prove(f"V[{i},{k}]", zval(r[i, k]) == z3.If(R, z3.RealVal(0), zval(inf)), A, case, family="reach", prefer=pr)

# ------------------------------------------------------------------ example models
SPEC = dict(linear_model=((lambda x, u: x + u), (lambda x, u: (x * x + u * u) / 2), (lambda x: x * x), (-2, 2), (-2, 2)),
            velocity_model=((lambda x, u: 1 - x * x / 10 + u), (lambda x, u: (x * x + u * u) / 2), (lambda x: 2 * x * x), (-3, 3), (-2, 2)),
            upwind_model=((lambda x, u: u * x), (lambda x, u: 0 * x), (lambda x: -x), (-1, 1), (0, 1)))
def call_model(lib, name, nx, nu, x, u, real):
    """f, L, LT at x, u; T, grids"""
    if lib == "np":
        if real:
            import jax; jax.config.update("jax_enable_x64", True)
            m = importlib.import_module("parallel_control.cnonlin_models_np"); A, o = float, (lambda v: np.asarray(v, dtype=float))
        else: jaxshim.install(); m = symnp.load("cnonlin_models_np"); A, o = (lambda v: v), (lambda v: unwrap(asobj(v)))
        f, L, LT, T, gx, gu = getattr(m, name)(nx, nu); return [o(v) for v in (f(A(x), A(u)), L(A(x), A(u)), LT(A(x)), T, gx, gu)]
    m = importlib.import_module("parallel_control.cnonlin_models_tf") if real else tfsym.module("cnonlin_models_tf")
    def h(x, u):
        f, L, LT, T, gx, gu = getattr(m, name)(nx, nu); return f(x, u), L(x, u), LT(x), T, gx, gu
    if real: return [np.asarray(v) for v in h(tf.constant(float(x), tf.float64), tf.constant(float(u), tf.float64))]
    return [unwrap(asobj(v)) for v in tfsym.run(h, arr(O(x), 'f'), arr(O(u), 'f'))]
def expect(name, nx, nu, x, u):
    f, L, LT, rx, ru = SPEC[name]; ls = lambda r, n: O([Fraction(r[0]) + Fraction(r[1] - r[0]) * i / (n - 1) for i in range(n)])
    return [O(f(x, u)), O(L(x, u)), O(LT(x)), O(Fraction(1)), ls(rx, nx), ls(ru, nu)]
NM = ("drift", "running cost", "terminal cost", "horizon", "state grid", "control grid")
@chk.family("model")
def replay_model(case):
    lib, name, nx, nu, x, u = case["lib"], case["name"], int(case["nx"]), int(case["nu"]), Fraction(case["x"]), Fraction(case["u"])
    try: r = call_model(lib, name, nx, nu, x, u, True)
    except Exception as ex: return True, f"{lib} {name} raises {type(ex).__name__}: {str(ex)[-300:]}"
    for nm, a, b in zip(NM, r, expect(name, nx, nu, x, u)):
        b = fl(b)
        if a.shape != b.shape or not np.all(np.abs(a - b) <= 1e-9 * (1 + np.abs(b).max())): return True, f"{lib} {name} {nm} is {a.tolist()} instead of {b.tolist()} at x={float(x)}, u={float(u)}"
    return False, "agrees"
def model(t, lib, model_, nx, nu):
    name = model_
    t.paths += 1; x, u = var("x"), var("u"); case = lambda env: dict(lib=lib, name=name, nx=nx, nu=nu, x=mval(env, x), u=mval(env, u))
    r = guarded(t, case, "model", lambda: call_model(lib, name, nx, nu, x, u, False))
    if r is None: return
    kw = dict(case=case, base=base(), family="model")
    for nm, a, b in zip(NM, r, expect(name, nx, nu, x, u)):
        if a.shape != b.shape: t.n_obl += 1; t.report(f"{nm} shape {a.shape}", case(Env(base())), "model"); continue
        t.equals(nm, a, b, **kw)

def validate(t, only=None):
    rng = random.Random(t.seed)
    q = lambda *s: np.array([Fraction(rng.randint(-12, 12), 8) for _ in range(int(np.prod(s)))], dtype=object).reshape(s)
    cases = []
    for lib in ("np", "tf"):
        for form in (1, 2):
            for steps, T in ((2, Fraction(3, 2)), (49, Fraction(1)), (3, Fraction(1, 10)), (10, Fraction(7, 10)), (97, Fraction(2))): cases.append(("shoot", dict(lib=lib, form=form, steps=steps, T=T, x0=q(2), xf=q(2), th=q(2, NTH(form, steps)) / 4, short=True)))
        for part in ("V_eval_1", "V_eval_2", "default")[:2 if lib == "np" else 3]: cases.append(("block", dict(lib=lib, part=part, steps=1, iters=1, blocks=1, cf=CF, T=Fraction(1), g0=q(2), gf=q(2))))
        for _ in range(3): cases.append(("reach", dict(lib=lib, inf=100, a=Fraction(rng.randint(4, 12), 4), grid=q(5))))
        for name in SPEC: cases.append(("model", dict(lib=lib, name=name, nx=7, nu=4, x=q(1)[0], u=q(1)[0])))
    cases = [c for c in cases if only in (None, c[0])]
    for fam, case in cases:
        if fam == "block" and case["part"] == "default": case["gf"] = case["g0"]
        t.validated += 1; bad, msg = chk.replays[fam](dict(case))
        if bad: t.report("concrete validation: " + fam, case, fam)

if __name__ == "__main__":
    big = chk.tier == "thorough"
    for lib in ("np", "tf"):
        for form in (1, 2):
            for steps, N in ((1, 1), (2, 2), (3, 3), (4, 1), (5, 1)) + (((8, 2),) if big else ()): chk.task(shooting, name=f"shooting {lib} {form} steps={steps} pairs={N}", lib=lib, form=form, steps=steps, N=N)
            p = f"V_eval_{form}"
            for q, steps in (("y", 1),): chk.task(block, name=f"{lib} {p} quadratic drift {q} symbolic steps={steps}", lib=lib, part=p, n0=1, nf=1, steps=steps, iters=1, quad=q)
            for n0, nf, steps, iters, sym, Ts in ((2, 3, 1, 1, (), False), (3, 2, 2, 1, (), False), (2, 2, 2, 3, (), False), (1, 1, 3, 1, (), False), (1, 2, 1, 1, (0,), False), (1, 1, 1, 1, (1, 2), False), (1, 1, 1, 1, (3, 4, 6), False), (1, 1, 1, 1, (2, 5), False), (1, 1, 1, 1, (), True)):
                chk.task(block, name=f"{lib} {p} grids {n0}x{nf} steps={steps} iterations={iters} symbolic {sym} T={Ts}", lib=lib, part=p, n0=n0, nf=nf, steps=steps, iters=iters, sym=sym, Tsym=Ts)
        for n in (1, 2, 3): chk.task(upwind, name=f"closed form {lib} n={n}", lib=lib, n=n)
        for name in SPEC:
            for nx, nu in ((5, 3), (2, 12)): chk.task(model, name=f"{name} {lib} {nx}x{nu}", lib=lib, model_=name, nx=nx, nu=nu)
        chk.task(block, name=f"{lib} block value default", lib=lib, part="default", n0=3, nf=3, steps=2, iters=1)
    for part in ("default", "method1", "method2", "method3"):
        for B in (1, 2, 3): chk.task(block, name=f"np shooting {part} blocks={B}", lib="np", part=part, n0=2, nf=2, steps=1 + B % 2, iters=1, blocks=B)
        chk.task(block, name=f"np shooting {part} symbolic horizon", lib="np", part=part, n0=1, nf=1, steps=1, iters=1, blocks=2, Tsym=True)
    for fam in chk.replays: chk.task(validate, name=f"translation validation {fam}", only=fam)
    chk.main()
