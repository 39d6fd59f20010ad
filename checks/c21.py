"""C21: SQP sub-problem and quasi-Newton updates satisfy their defining equations."""
import importlib, random
from fractions import Fraction
import numpy as np
from vlib.run import Check, Env, mval
from vlib import symnp, poly, jaxshim
from vlib.symnp import arr, osolve, unwrap, asobj
from vlib.poly import var, R, Rat, Ext
symnp.DOMAIN["rat"] = True

chk = Check("C21",
    bounds_text="quadratic sub-problem: every Hessian, gradient, constraint matrix and right-hand side with up to 3 unknowns and 2 constraints (at most four groups symbolic at a time for the largest), TensorFlow batches of 1 to 3; "
                "function, gradient, Jacobian and Hessian: every cubic objective and quadratic constraint in 2 to 3 unknowns; Newton iterations: one step with every quadratic objective and affine constraint from every start, one and two steps with cubic objectives and quadratic constraints, symbolic start or multiplicative groups; "
                "updates: every symmetric matrix, step and gradient change to dimension 3; line search: every start in two unknowns with 0 to 3 halvings, one and two iterations",
    outside="convergence of the iterations, singular optimality systems, larger dimensions, rounding, further iterations",
    explanation="solver, derivative, iteration and update functions executed on symbolic problems (JAX on a symbolic array and differentiation layer, TensorFlow graphs traced from the source); results asserted to satisfy the optimality system, exact derivatives, secant equation, symmetry, curvature and determinant identities, the iterations to equal Newton's method on the optimality conditions and the damped quasi-Newton method with halving")
chk.assumptions = ["floating point modelled as exact real arithmetic", "factorisation followed by solve modelled as exact solution", "TensorFlow kernels follow their documented semantics", "JAX transformations modelled as exact derivatives of the executed code",
                   "decimal constants 0.2, 0.8 and 0.5 are those decimals"]
def _imp():
    global tfsym, tf
    from vlib import tfsym
    import tensorflow as tf
    tfsym.module("sqp_tf")
chk.setup.append(_imp)

O = lambda x: np.asarray(x, dtype=object)
F = lambda a: np.asarray(a, dtype=float) if np.asarray(a).dtype != object else np.vectorize(float, otypes=[float])(a) if np.asarray(a).size else np.asarray(a).astype(float)
Q = lambda v: np.vectorize(Fraction, otypes=[object])(O(v)) if O(v).size else O(v)

# ------------------------------------------------------------------ problems: 1/2 x'Gx + c'x + sum g x^3, A x - b + 1/2 x'Q_k x
class P:
    def __init__(self, G, c, A, b, g, Q): self.G, self.c, self.A, self.b, self.g, self.Q = [O(i) for i in (G, c, A, b, g, Q)]
    def f(self, x): return x.dot(self.G.dot(x)) * Fraction(1, 2) + self.c.dot(x) + sum(g * v * v * v for g, v in zip(self.g, x))
    def Jf(self, x): return (self.G + self.G.T).dot(x) * Fraction(1, 2) + self.c + O([3 * g * v * v for g, v in zip(self.g, x)])
    def con(self, x): return self.A.dot(x) - self.b + O([x.dot(q.dot(x)) * Fraction(1, 2) for q in self.Q])
    def Jc(self, x): return self.A + O([(q + q.T).dot(x) * Fraction(1, 2) for q in self.Q])
    def HL(self, x, lam): return (self.G + self.G.T) * Fraction(1, 2) + np.diag(O([6 * g * v for g, v in zip(self.g, x)])) - sum(l * (q + q.T) * Fraction(1, 2) for l, q in zip(lam, self.Q))
    def Jl(self, x, lam): return self.Jf(x) - self.Jc(x).T.dot(lam)
def solve(M, v): return osolve(O(M), O(v).reshape(-1, 1))[:, 0]
def kkt(G, c, A, b):
    m, n = A.shape
    M = np.zeros((n + m, n + m), dtype=object); M[:n, :n] = G; M[:n, n:] = -A.T; M[n:, :n] = A
    r = solve(M, np.concatenate([-c, b])); return r[:n], r[n:]
def newton(p, x0, iters, stop=False):
    """Newton's method on the optimality conditions, multipliers starting at zero; every iterate with the squared norm of the Lagrangian gradient before the step"""
    x, lam, out = x0, O([0] * len(p.b)), []
    for it in range(iters):
        if stop and it and out[-1][2] == 0: break
        Jl = p.Jl(x, lam); d, h = kkt(p.HL(x, lam), p.Jf(x), p.Jc(x), -p.con(x))
        x, lam = x + d, h; out.append((x, lam, Jl.dot(Jl)))
    return out
def bfgs(B, s, y, damped):
    Bs = B.dot(s); sBs, sy = s.dot(Bs), s.dot(y)
    if damped:
        if not sy >= sBs * Fraction(1, 5):
            th = sBs * Fraction(4, 5) / (sBs - sy); y = th * y + (1 - th) * Bs
    elif not sy > 0: return B
    return B + np.outer(y, y) / s.dot(y) - np.outer(Bs, Bs) / sBs
def linesearch(p, x0, iters, mb, damped):
    """damped quasi-Newton steps halved until the merit does not increase, a full step when mb halvings do not help"""
    x, B, lam, out = x0, np.eye(len(x0), dtype=int).astype(object), O([0] * len(p.b)), []
    merit = lambda z: p.f(z) + sum(abs(v) for v in p.con(z))
    for it in range(iters):
        if it and out[-1][1] == 0: break
        d, h = kkt(B, p.Jf(x), p.Jc(x), -p.con(x)); a, k, m0 = Fraction(1), 0, merit(x)
        while k < mb and merit(x + a * d) > m0: a, k = a / 2, k + 1
        if k == mb: a = Fraction(1)
        xo, x, lam = x, x + a * d, lam + a * (h - lam); J = p.Jl(x, lam); B = bfgs(B, x - xo, J - p.Jl(xo, lam), damped); out.append((x, J.dot(J), k))
    return out

# the same problem in the array language of the code under check (m is jnp or tf)
def jfun(jnp, p):
    G, c, A, b, g, Qs = p
    return (lambda x: jnp.dot(x, G @ x) * 0.5 + jnp.dot(c, x) + jnp.dot(g, x * x * x)), (lambda x: A @ x - b + 0.5 * jnp.sum(jnp.sum(Qs * x, axis=-1) * x, axis=-1))
def tfun(n, m):
    def unpack(par):
        sh = [(n, n), (n,), (m, n), (m,), (n,), (m, n, n)]; o, i = [], 0
        for s in sh:
            k = int(np.prod(s)); o.append(tf.reshape(par[i:i + k], s)); i += k
        return o
    def fun(x, par):
        G, c, A, b, g, Qs = unpack(par)
        return tf.reduce_sum(x * tf.reduce_sum(G * x[..., None, :], -1), -1) * 0.5 + tf.reduce_sum(c * x, -1) + tf.reduce_sum(g * x * x * x, -1)
    def con(x, par):
        G, c, A, b, g, Qs = unpack(par)
        return tf.reduce_sum(A * x[..., None, :], -1) - b + 0.5 * tf.reduce_sum(tf.reduce_sum(Qs * x[..., None, None, :], -1) * x[..., None, :], -1)
    return fun, con
flat = lambda p: np.concatenate([O(i).reshape(-1) for i in p])

# ------------------------------------------------------------------ replays
def prob(case): return [Q(case[k]) for k in ("G", "c", "A", "b", "g", "Q")]
def near(a, b, msg):
    a, b = np.asarray(F(a)), np.asarray(F(b))
    if a.shape != b.shape: return f"{msg} has shape {a.shape} instead of {b.shape}"
    if not np.all(np.isfinite(a)): return f"{msg} is not finite: {a.tolist()}"
    if not np.all(np.abs(a - b) <= 1e-7 * (1 + np.abs(b).max() if b.size else 1)): return f"{msg} is {a.tolist()} instead of {b.tolist()}"
def jx():
    import jax; jax.config.update("jax_enable_x64", True)
    import jax.numpy as jnp; return jnp, importlib.import_module("parallel_control.sqp_np")
T_ = lambda v: tf.constant(F(v), tf.float64)
@chk.family("lqe")
def replay(case):
    G, c, A, b = [Q(case[k]) for k in ("G", "c", "A", "b")]; lib = case["lib"]
    rng = np.random.default_rng(2)
    for trial in range(3):
        if trial:
            W = lambda z: z + np.vectorize(Fraction, otypes=[object])(rng.integers(-9, 9, z.shape)) / 8
            c, b = W(c), W(b)
        try:
            w = [kkt(g, cc, a, bb) for g, cc, a, bb in zip(G, c, A, b)]
        except (ZeroDivisionError, np.linalg.LinAlgError): return False, "singular system"
        try:
            if lib == "np":
                jnp, m = jx(); r = [m.lqe_solve(*[jnp.asarray(F(i)) for i in q]) for q in zip(G, c, A, b)]; x, l = [np.stack([np.asarray(i[j]) for i in r]) for j in range(2)]
            else:
                _imp(); m = importlib.import_module("parallel_control.sqp_tf"); a = (G, c, A, b) if case["batch"] else (G[0], c[0], A[0], b[0])
                x, l = [np.asarray(i) for i in m.lqe_solve(*[T_(i) for i in a])]
                if not case["batch"]: x, l = x[None], l[None]
        except Exception as ex: return True, f"{lib} lqe_solve raises {type(ex).__name__}: {str(ex)[-300:]}"
        e = near(x, np.stack([i[0] for i in w]), f"{lib} lqe_solve minimiser") or near(l, np.stack([i[1] for i in w]), f"{lib} lqe_solve multipliers")
        if e: return True, e + f" for G={F(G).tolist()} c={F(c).tolist()} A={F(A).tolist()} b={F(b).tolist()}"
    return False, "agrees"
@chk.family("deriv")
def replay_deriv(case):
    _imp(); m = importlib.import_module("parallel_control.sqp_tf"); pl = prob(case); p = P(*pl); n, k = len(p.c), len(p.b); fun, con = tfun(n, k)
    X, Lm, B = Q(case["x"]), Q(case["lam"]), case["batch"]; ax = (lambda v: T_(v)) if B else (lambda v: T_(v[0])); par = T_(flat(pl)); up = (lambda v: np.asarray(v)) if B else (lambda v: np.asarray(v)[None])
    st = lambda g: np.stack([O(g(x, l)) for x, l in zip(X, Lm)])
    try:
        v, g = m.fun_value_grad(fun, ax(X), par, B); cv, J = m.con_value_jac(con, ax(X), par, B); lv, lg, H = m.lag_value_grad_hess(fun, con, ax(X), ax(Lm), par, B)
    except Exception as ex: return True, f"derivative functions raise {type(ex).__name__}: {str(ex)[-300:]}"
    for nm, a, w in (("function value", v, st(lambda x, l: p.f(x))), ("gradient", g, st(lambda x, l: p.Jf(x))), ("constraint value", cv, st(lambda x, l: p.con(x))), ("constraint Jacobian", J, st(lambda x, l: p.Jc(x))),
                     ("Lagrangian", lv, st(lambda x, l: p.f(x) - l.dot(p.con(x)))), ("gradient of the Lagrangian", lg, st(lambda x, l: p.Jl(x, l))), ("Hessian of the Lagrangian", H, st(lambda x, l: p.HL(x, l)))):
        e = near(up(a), w, nm)
        if e: return True, e + f" at x={F(X).tolist()} lam={F(Lm).tolist()}"
    return False, "agrees"
@chk.family("newton")
def replay_newton(case):
    pl = prob(case); p = P(*pl); X, it, lib = Q(case["x"]), int(case["iters"]), case["lib"]
    if lib != "tfb": X = X[:1]
    try: w = [newton(p, x, it, lib == "eq") for x in X]
    except (ZeroDivisionError, np.linalg.LinAlgError): return False, "singular system"
    try:
        if lib in ("eq", "fast"):
            jnp, m = jx(); fun, con = jfun(jnp, [jnp.asarray(F(i)) for i in pl])
            x, n, cr = (m.local_eq(fun, con, jnp.asarray(F(X[0])), max_iter=it, quiet=True) if lib == "eq" else m.local_eq_fast(fun, con, jnp.asarray(F(X[0])), num_iter=it, quiet=True))
            e = near(np.asarray(x), w[0][-1][0], f"{lib} iterate") or near(np.asarray(cr) ** 2, w[0][-1][2], f"{lib} squared criterion") or near(np.asarray(n), len(w[0]) if lib == "eq" else it, f"{lib} iteration count")
        else:
            _imp(); m = importlib.import_module("parallel_control.sqp_tf"); fun, con = tfun(len(p.c), len(p.b)); B = lib == "tfb"
            xs, ls, cr = [np.asarray(i) for i in m.local_eq_fast(fun, con, T_(X if B else X[0]), T_(flat(pl)), it, B)]
            if not B: xs, ls = xs[:, None], ls[:, None]
            e = near(xs, np.stack([np.stack([w[i][k][0] for i in range(len(X))]) for k in range(it)]), "iterates") or near(ls, np.stack([np.stack([w[i][k][1] for i in range(len(X))]) for k in range(it)]), "multipliers") \
                or near(cr ** 2, O([sum(w[i][k][2] for i in range(len(X))) for k in range(it)]), "squared criterion")
    except Exception as ex: return True, f"{lib} iteration raises {type(ex).__name__}: {str(ex)[-300:]}"
    if e: return True, e + f" from x={F(X).tolist()}"
    return False, "agrees"
@chk.family("update")
def replay_update(case):
    B, s, y, damped = Q(case["B"]), Q(case["s"]), Q(case["y"]), case["damped"]
    if not s.dot(B.dot(s)) > 0: return False, "not a positive curvature"
    if not damped and s.dot(y) == 0 or abs(float(s.dot(y) - s.dot(B.dot(s)) / 5)) < 1e-9: return False, "on the border of a case"
    try:
        jnp, m = jx(); r = np.asarray((m.bfgs_damped_update if damped else m.bfgs_basic_update)(*[jnp.asarray(F(i)) for i in (B, s, y)], quiet=True))
    except Exception as ex: return True, f"update raises {type(ex).__name__}: {str(ex)[-300:]}"
    e = near(r, bfgs(B, s, y, damped), ("damped" if damped else "basic") + " update")
    return (True, e + f" for B={F(B).tolist()} s={F(s).tolist()} y={F(y).tolist()}") if e else (False, "agrees")
@chk.family("search")
def replay_search(case):
    pl = prob(case); p = P(*pl); X, it, mb, damped = Q(case["x"]), int(case["iters"]), int(case["mb"]), case["damped"]
    try: w = linesearch(p, X, it, mb, damped)
    except (ZeroDivisionError, np.linalg.LinAlgError): return False, "singular system"
    try:
        jnp, m = jx(); fun, con = jfun(jnp, [jnp.asarray(F(i)) for i in pl]); x, n, cr = m.bfgs_eq_bt(fun, con, jnp.asarray(F(X)), max_iter=it, max_backtrack=mb, damped=damped, quiet=True)
    except Exception as ex: return True, f"bfgs_eq_bt raises {type(ex).__name__}: {str(ex)[-300:]}"
    e = near(np.asarray(x), w[-1][0], "iterate") or near(np.asarray(cr) ** 2, w[-1][1], "squared criterion") or near(np.asarray(n), len(w), "iteration count")
    return (True, e + f" from x={F(X).tolist()} with {[i[2] for i in w]} halvings") if e else (False, "agrees")

# ------------------------------------------------------------------ symbolic problems
def nums(nm, *s):
    rng = random.Random(nm + str(s)); o = np.empty(s, dtype=object)
    for q in np.ndindex(*s): o[q] = Fraction(rng.choice([-5, -3, -2, -1, 1, 2, 3, 4, 5]), 4)
    return o
def sym(nm, *s):
    o = np.empty(s, dtype=object)
    for q in np.ndindex(*s): o[q] = var(nm + "_".join(map(str, q)))
    return o
def val(nm, on, *s): return sym(nm, *s) if on else nums(nm, *s)
def ssym(nm, on, n):
    o = np.empty((n, n), dtype=object); g = nums(nm, n, n)
    for i in range(n):
        for j in range(i + 1): o[i, j] = o[j, i] = var(f"{nm}{i}_{j}") if on else g[i, j] + (3 if i == j else 0)
    return o
def base():
    rng = random.Random(11); b = {}
    for i, v in enumerate(poly.VARS): b[v] = Fraction(rng.choice([-5, -3, -2, 2, 3, 4, 5]), 4) + (Fraction(5) if v[:1] in "GB" and v[-1:] == v[1:2] and "_" in v else 0)
    return b
def kwa(case, family): return dict(case=case, base=base(), family=family)
def guarded(t, kw, f):
    try: return f()
    except (ValueError, TypeError, IndexError, AttributeError, NotImplementedError) as ex:
        t.n_obl += 1; t.report(f"raises {type(ex).__name__}: {ex}", kw["case"](Env({v: kw["base"].get(v, Fraction(1, 5)) for v in poly.VARS})), kw["family"])
def module(): jaxshim.install(); m = symnp.load("sqp_np"); return m, jaxshim.jnp_module()

def lqe(t, lib, n, m, on, N=1, batch=False):
    t.paths += 1; G = np.stack([ssym(f"G{'' if N == 1 else 'ab'[i:i+1] or 'c'}", "G" in on, n) for i in range(N)])
    c, A, b = val("c", "c" in on, N, n), val("A", "A" in on, N, m, n), val("b", "b" in on, N, m)
    kw = kwa(lambda env: dict(G=mval(env, G), c=mval(env, c), A=mval(env, A), b=mval(env, b), lib=lib, batch=batch), "lqe")
    def go():
        if lib == "np":
            md, _ = module(); r = [md.lqe_solve(*[arr(i.copy()) for i in q]) for q in zip(G, c, A, b)]; return [np.stack([unwrap(asobj(i[j])) for i in r]) for j in range(2)]
        md = tfsym.module("sqp_tf"); a = (G, c, A, b) if batch else (G[0], c[0], A[0], b[0])
        r = [unwrap(asobj(i)) for i in tfsym.run(lambda *z: md.lqe_solve(*z), *[arr(O(i).copy(), 'f') for i in a])]
        return r if batch else [i[None] for i in r]
    r = guarded(t, kw, go)
    if r is None: return
    x, l = r
    for nm, a, s in (("minimiser", x, (N, n)), ("multipliers", l, (N, m))):
        if a.shape != s: t.n_obl += 1; return t.report(f"{nm} has shape {a.shape}", kw["case"](Env(dict(kw["base"]))), "lqe")
    for i in range(N):
        t.equals("stationarity", G[i].dot(x[i]) + c[i] - A[i].T.dot(l[i]), O([0] * n), **kw); t.equals("feasibility", A[i].dot(x[i]), b[i], **kw)

def build(n, m, on, quad=False):
    z = O(0)
    return [ssym("G", "G" in on, n), val("c", "c" in on, n), val("A", "A" in on, m, n), val("b", "b" in on, m),
            O([0] * n) if quad else val("g", "g" in on, n), np.zeros((m, n, n), dtype=int).astype(object) if quad else np.stack([ssym("Q" + "xyz"[k], "Q" in on, n) for k in range(m)])]
def pcase(env, pl, **k):
    d = {nm: mval(env, v) for nm, v in zip("GcAbgQ", pl)}; d.update({a: (mval(env, b) if isinstance(b, np.ndarray) else b) for a, b in k.items()}); return d
def deriv(t, n, m, on, N, batch):
    t.paths += 1; pl = build(n, m, on); p = P(*pl); X, Lm = sym("x", N, n), sym("l", N, m)
    kw = kwa(lambda env: pcase(env, pl, x=X, lam=Lm, batch=batch), "deriv"); fun, con = tfun(n, m); md = tfsym.module("sqp_tf"); par = arr(flat(pl), 'f')
    ax = lambda v: arr(v.copy() if batch else v[0].copy(), 'f')
    def go():
        a = tfsym.run(lambda x, q: md.fun_value_grad(fun, x, q, batch), ax(X), par); b = tfsym.run(lambda x, q: md.con_value_jac(con, x, q, batch), ax(X), par)
        return list(a) + list(b) + list(tfsym.run(lambda x, l, q: md.lag_value_grad_hess(fun, con, x, l, q, batch), ax(X), ax(Lm), par))
    r = guarded(t, kw, go)
    if r is None: return
    st = lambda g: np.stack([O(g(x, l)) for x, l in zip(X, Lm)])
    ws = [st(lambda x, l: p.f(x)), st(lambda x, l: p.Jf(x)), st(lambda x, l: p.con(x)), st(lambda x, l: p.Jc(x)), st(lambda x, l: p.f(x) - l.dot(p.con(x))), st(lambda x, l: p.Jl(x, l)), st(lambda x, l: p.HL(x, l))]
    for nm, a, w in zip(("value", "gradient", "constraint", "Jacobian", "Lagrangian", "Lagrangian gradient", "Lagrangian Hessian"), r, ws): t.equals(nm, unwrap(asobj(a)), w if batch else w[0], **kw)

def sq(v): v = unwrap(asobj(v)); v = v.item() if isinstance(v, np.ndarray) and v.ndim == 0 else v; return v * v
def newt(t, lib, n, m, on, iters, quad, N=1):
    pl = build(n, m, on, quad); p = P(*pl); X = np.stack([val(f"x{'ab'[i]}", "x" in on or f"x{i}" in on, n) for i in range(N)]); t.paths += 1
    kw = kwa(lambda env: pcase(env, pl, x=X, iters=iters, lib=lib), "newton")
    def go():
        if lib in ("eq", "fast"):
            md, jnp = module(); fun, con = jfun(jnp, [arr(i.copy()) for i in pl]); x0 = arr(X[0].copy())
            return md.local_eq(fun, con, x0, max_iter=iters, quiet=True) if lib == "eq" else md.local_eq_fast(fun, con, x0, num_iter=iters, quiet=True)
        md = tfsym.module("sqp_tf"); fun, con = tfun(n, m); B = lib == "tfb"
        return tfsym.run(lambda x, q: md.local_eq_fast(fun, con, x, q, iters, B), arr((X if B else X[0]).copy(), 'f'), arr(flat(pl), 'f'))
    r = guarded(t, kw, go)
    if r is None: return
    w = [newton(p, x, iters, lib == "eq") for x in X]
    if lib in ("eq", "fast"):
        x, k, cr = r; t.equals("iterate", unwrap(asobj(x)), w[0][-1][0], **kw); t.equal("squared criterion", sq(cr), w[0][-1][2], **kw)
        k = unwrap(asobj(k)); t.equal("iterations", k.item() if isinstance(k, np.ndarray) else k, len(w[0]) if lib == "eq" else iters, **kw)
    else:
        xs, ls, cr = [unwrap(asobj(i)) for i in r]
        sh = lambda j, it: np.stack([w[i][it][j] for i in range(N)]) if lib == "tfb" else w[0][it][j]
        t.equals("iterates", xs, np.stack([sh(0, k) for k in range(iters)]), **kw); t.equals("multipliers", ls, np.stack([sh(1, k) for k in range(iters)]), **kw)
        t.equals("squared criterion", O([v * v for v in cr.reshape(-1)]), O([sum(w[i][k][2] for i in range(N)) for k in range(iters)]), **kw)

def update(t, n, damped):
    B, s, y = ssym("B", True, n), sym("s", n), sym("y", n); t.paths += 1
    Bs = B.dot(s); sBs, sy = s.dot(Bs), s.dot(y)
    import z3
    poly.DOMAIN.append((sBs > 0).e)
    kw = kwa(lambda env: dict(B=mval(env, B), s=mval(env, s), y=mval(env, y), damped=damped), "update"); md, jnp = module()
    r = guarded(t, kw, lambda: unwrap(asobj((md.bfgs_damped_update if damped else md.bfgs_basic_update)(arr(B.copy()), arr(s.copy()), arr(y.copy()), quiet=True))))
    if r is None: return
    t.equals("formula", r, bfgs(B, s, y, damped), **kw)
    # consequences the user relies on, stated without the formula
    t.equals("symmetric", r, r.T, **kw)
    if damped:
        ok = bool(sy >= sBs * Fraction(1, 5)); c = sy if ok else sBs * Fraction(1, 5); v = y if ok else None
        t.equal("curvature along the step", s.dot(r.dot(s)), c, **kw)
        if n <= 2: t.equal("determinant", symnp.la_det(r) * sBs, symnp.la_det(B) * c, **kw)
        if ok: t.equals("secant equation", r.dot(s), y, **kw)
    elif bool(sy > 0):
        t.equals("secant equation", r.dot(s), y, **kw)
        if n <= 2: t.equal("determinant", symnp.la_det(r) * sBs, symnp.la_det(B) * sy, **kw)
    else: t.equals("unchanged", r, B, **kw)

def search(t, on, iters, mb, damped, n=2, m=1, quad=False):
    pl = build(n, m, "", quad); X = val("x", False, n); t.paths += 1
    for nm in on:
        if nm == "x0": X[0] = var("x0")
        elif nm == "x1": X[1] = var("x1")
        elif nm == "c0": pl[1][0] = var("c0")
        elif nm == "c1": pl[1][1] = var("c1")
        elif nm == "b0": pl[3][0] = var("b0")
        elif nm == "g0": pl[4][0] = var("g0")
        elif nm == "G": pl[0][0, 0] = var("G0_0")
    p = P(*pl)
    kw = kwa(lambda env: pcase(env, pl, x=X, iters=iters, mb=mb, damped=damped), "search"); md, jnp = module(); fun, con = jfun(jnp, [arr(i.copy()) for i in pl])
    r = guarded(t, kw, lambda: md.bfgs_eq_bt(fun, con, arr(X.copy()), max_iter=iters, max_backtrack=mb, damped=damped, quiet=True))
    if r is None: return
    w = linesearch(p, X, iters, mb, damped)
    t.equals("iterate", unwrap(asobj(r[0])), w[-1][0], **kw); t.equal("squared criterion", sq(r[2]), w[-1][1], **kw); t.equal("iterations", r[1], len(w), **kw)

def validate(t):
    for s in range(6):
        rng = random.Random(t.seed * 100 + s); q = lambda *sh: np.array([Fraction(rng.randint(-20, 20), 8) for _ in range(int(np.prod(sh)))], dtype=object).reshape(sh)
        n, m = rng.choice([(2, 1), (3, 1), (3, 2)]); N = 2; spd = lambda: (lambda a: a.dot(a.T) + 2 * np.eye(n, dtype=int))(q(n, n))
        for fam, case in [("lqe", dict(G=np.stack([spd() for _ in range(N)]), c=q(N, n), A=q(N, m, n), b=q(N, m), lib=l, batch=True)) for l in ("np", "tf")] + \
            [(f, dict(G=spd(), c=q(n), A=q(m, n), b=q(m), g=q(n) / 8, Q=np.stack([spd() for _ in range(m)]), x=q(N, n), lam=q(N, m), batch=True, iters=1 + s % 2, lib=l)) for f, l in (("deriv", ""), ("newton", "eq"), ("newton", "fast"), ("newton", "tf"), ("newton", "tfb"))] + \
            [("update", dict(B=spd(), s=q(n), y=q(n), damped=d)) for d in (True, False)] + \
            [("search", dict(G=spd(), c=q(n), A=q(m, n), b=q(m), g=q(n) / 8, Q=np.stack([spd() for _ in range(m)]), x=q(n), iters=1, mb=4, damped=d)) for d in (True, False)]:
            t.validated += 1; bad, msg = chk.replays[fam](dict(case))
            if bad: t.report("concrete validation: " + fam, case, fam)

if __name__ == "__main__":
    big = chk.tier == "thorough"
    for lib in ("np", "tf"):
        for n, m, ons in ((1, 1, ["GcAb"]), (2, 1, ["GcAb"]), (2, 2, ["GcAb"]), (3, 1, ["Gcb", "cAb"]), (3, 2, ["Gb", "cb", "Ab"])):
            for on in ons + (["GcAb"] if big and (n, m) == (3, 1) else []): chk.task(lqe, name=f"lqe {lib} n={n} m={m} {on}", lib=lib, n=n, m=m, on=on)
    for n, m, N, on in ((1, 1, 1, "GcAb"), (2, 1, 2, "cAb"), (2, 1, 2, "Gb"), (3, 2, 3, "cb")): chk.task(lqe, name=f"lqe tf batch {N} n={n} m={m} {on}", lib="tf", n=n, m=m, on=on, N=N, batch=True)
    for n, m, N, B in ((2, 1, 1, False), (3, 2, 1, False), (2, 1, 2, True), (2, 2, 3, True), (3, 1, 1, True)): chk.task(deriv, name=f"derivatives n={n} m={m} N={N} batch={B}", n=n, m=m, on="GcAbgQ", N=N, batch=B)
    for lib in ("eq", "fast", "tf", "tfb"):
        N = 2 if lib == "tfb" else 1
        for n, m, on in ((1, 1, "GcAbx"), (2, 1, "GcAbx"), (2, 1, "cAbx"), (3, 1, "cbx"), (3, 2, "cbx")):
            chk.task(newt, name=f"newton {lib} quadratic n={n} m={m} {on}", lib=lib, n=n, m=m, on=on, iters=1, quad=True, N=N)
        for n, m, on in ((2, 1, "cb"), (3, 1, "x")): chk.task(newt, name=f"newton {lib} quadratic n={n} m={m} {on} 2 steps", lib=lib, n=n, m=m, on=on, iters=2, quad=True, N=N)
        for n, m, on in ((1, 1, "GcAbgQx"), (2, 1, "x"), (2, 1, "gQ"), (2, 1, "cbx"), (3, 2, "x")): chk.task(newt, name=f"newton {lib} n={n} m={m} {on}", lib=lib, n=n, m=m, on=on, iters=1, quad=False, N=N)
        for n, m, on in ((1, 1, "x"), (2, 1, "x0"), (2, 1, "b")): chk.task(newt, name=f"newton {lib} n={n} m={m} {on} 2 steps", lib=lib, n=n, m=m, on=on, iters=2, quad=False, N=N)
    for n in (1, 2, 3):
        for d in (True, False): chk.task(update, name=f"update n={n} damped={d}", n=n, damped=d)
    for on, quad, mbs in ((("c0",), False, (0, 1, 2, 3)), (("b0",), False, (0, 1, 2, 3)), (("x0", "x1"), True, (0, 1, 2)), (("c0", "c1"), True, (1, 2)), (("x0",), False, (0, 1)), (("G", "c0"), True, (1, 2)), (("g0",), False, (1, 2))):
        for mb in mbs + ((4,) if big else ()):
            chk.task(search, name=f"line search 1 iteration {'+'.join(on)} quadratic={quad} {mb} halvings", on=on, iters=1, mb=mb, damped=bool(mb % 2), quad=quad)
    for d in (True, False):
        for on, quad in ((("c0",), True), (("b0",), True), (("x0",), True), (("c0",), False)): chk.task(search, name=f"line search 2 iterations {on[0]} quadratic={quad} damped={d}", on=on, iters=2, mb=1, damped=d, quad=quad)
    chk.task(validate, name="translation validation")
    chk.main()
