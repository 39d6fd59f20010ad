"""C13: Runge-Kutta integration is the classical fourth-order method."""
import importlib, itertools, random, math
from fractions import Fraction
import numpy as np
from vlib.run import Check, Env, mval
from vlib import symnp, poly
from vlib.symnp import arr
from vlib.poly import var, R, ufn, coeff, truncate
symnp.DOMAIN["rat"] = True

chk = Check("C13",
    bounds_text="one step, right-hand side an uninterpreted function of all state entries, time and parameter (any right-hand side), all states, times, parameters and step lengths; states of shapes (), (1), (2), (3), (2,2) and batches of 2 or 3 with their own times; Taylor expansion for every smooth right-hand side with scalar state and time and for autonomous right-hand sides in two dimensions",
    outside="larger state shapes, rounding, single-precision states",
    explanation="both integrators executed with an uninterpreted right-hand side; the result asserted equal to the classical step by the solver, and, for a right-hand side given by its Taylor coefficients, the coefficients of the step length in the result equal to those of the exact solution up to order four")
chk.assumptions = ["floating point modelled as exact real arithmetic"]
def _imp():
    global tfsym, tf
    from vlib import tfsym
    import tensorflow as tf
    tfsym.module("diffeq_tf")
chk.setup.append(_imp)

def classic(f, dt, x, t, p):
    h = Fraction(1, 2) if isinstance(dt, Fraction) or not isinstance(dt, float) else 0.5
    k1 = f(x, t, p); k2 = f(x + k1 * (dt * h), t + dt * h, p); k3 = f(x + k2 * (dt * h), t + dt * h, p); k4 = f(x + k3 * dt, t + dt, p)
    return x + (k1 + k2 * 2 + k3 * 2 + k4) * (dt * (Fraction(1, 6) if h != 0.5 or isinstance(h, Fraction) else 1 / 6))

# ------------------------------------------------------------------ concrete side
def conc_f(k, batch):
    """three concrete right-hand sides mixing all entries"""
    def f(x, t, p):
        x = np.asarray(x, dtype=float); t = np.asarray(t, dtype=float); p = np.asarray(p, dtype=float)
        def one(x, t, p):
            z = x.ravel(); s = z.sum(); w = np.arange(1, z.size + 1)
            return {0: np.sin(z * w + t) + 0.3 * s * p, 1: z[::-1] * z * 0.5 + t * t * w - 0.7 * p * z, 2: np.cos(s + w * t * 2) * z + p * w + 0.2 * t ** 3}[k].reshape(x.shape)
        if not batch: return one(x, float(t), float(p))
        return np.stack([one(x[i], t if t.ndim == 0 else t[i], p if p.ndim == 0 else p[i]) for i in range(len(x))])
    return f
@chk.family("rk4")
def replay(case):
    A = lambda v: np.array(v, dtype=float) if isinstance(v, list) else float(v)
    x, dt, t, p = [A(_fl(case[k])) for k in ("x", "dt", "t", "p")]
    lib, mode = case["lib"], case["mode"]; batch = "b" in mode
    dt = float(dt) if np.ndim(dt) == 0 else dt
    if abs(dt) > 3: dt = dt / abs(dt) * 0.5
    if dt == 0: dt = 0.25
    bc = (lambda v: v.reshape(v.shape + (1,) * (x.ndim - 1)) if np.ndim(v) else v)
    for k in range(3):
        f = conc_f(k, batch)
        t0 = t if "t" in mode else 0.0; p0 = p if "p" in mode else 0.0
        want = classic(f, dt, x, t0, p0)
        try:
            if lib == "np":
                m = importlib.import_module("parallel_control.diffeq_np")
                g = {"": lambda x: f(x, 0.0, 0.0), "t": lambda x, t: f(x, t, 0.0), "p": lambda x, p: f(x, 0.0, p), "tp": f}[mode.replace("b", "")]
                want = classic(f if "t" in mode else lambda x, t, p: f(x, 0.0, p), dt, x, t0, p0)
                kw = {}
                if "t" in mode: kw["t"] = t
                if "p" in mode: kw["param"] = p
                got = m.rk4(g, dt, x.copy() if np.ndim(x) else x, **kw)
            else:
                _imp(); m = importlib.import_module("parallel_control.diffeq_tf")
                c = lambda v: tf.constant(v, dtype=tf.float64)
                def g(x, t, p):
                    r = tf.numpy_function(f, [x, tf.cast(t, tf.float64), tf.cast(p, tf.float64)], tf.float64); r.set_shape(x.shape); return r
                kw = {}
                if "t" in mode: kw["t"] = c(t)
                if "p" in mode: kw["param"] = c(p)
                got = m.rk4(g, c(dt), c(x), **kw).numpy()
        except Exception as ex:
            return True, f"{lib} raises {type(ex).__name__}: {str(ex)[-300:]}"
        if np.shape(got) != np.shape(want): return True, f"{lib} returns shape {np.shape(got)} instead of {np.shape(want)}"
        if not np.allclose(got, want, rtol=1e-9, atol=1e-9): return True, f"{lib}: step gives {np.asarray(got).tolist()} instead of {np.asarray(want).tolist()} (right-hand side {k})"
    return False, "agrees"
def _fl(v): return [_fl(i) for i in v] if isinstance(v, list) else float(Fraction(v))

# ------------------------------------------------------------------ symbolic side
def uff(shape, batch):
    """uninterpreted right-hand side on object arrays; a batch applies it entry by entry"""
    def one(x, t, p):
        z = list(np.asarray(x, dtype=object).ravel()) if np.ndim(x) else [x]
        o = np.empty(len(z), dtype=object)
        for i in range(len(z)): o[i] = ufn(f"f{i}", *z, t, p)
        return o.reshape(np.shape(x)) if np.ndim(x) else o[0]
    def f(x, t, p):
        x = np.asarray(symnp.unwrap(x), dtype=object); t = np.asarray(symnp.unwrap(t), dtype=object); p = np.asarray(symnp.unwrap(p), dtype=object)
        g = lambda a: a.item() if a.ndim == 0 else a
        if not batch: return one(g(x), g(t), g(p))
        return np.array([one(x[i], t.item() if t.ndim == 0 else t[i], p.item() if p.ndim == 0 else p[i]) for i in range(len(x))], dtype=object).reshape(x.shape)
    return f
def vs(name, shape):
    o = np.empty(shape, dtype=object)
    for pos in np.ndindex(*shape): o[pos] = var(name + "_".join(map(str, pos)))
    return o if shape else var(name)
def run(t, lib, shape, mode, tshape=()):
    batch = "b" in mode; t.paths += 1
    x, dt = vs("x", shape), var("dt")
    tt = vs("t", tshape) if "t" in mode else 0; pp = vs("p", tshape) if "p" in mode else 0
    base = {v: Fraction(1, 3) + Fraction(i, 7) for i, v in enumerate(poly.VARS)}; base["dt"] = Fraction(1, 4)
    kw = dict(case=lambda env: dict(x=mval(env, x), dt=mval(env, dt), t=mval(env, tt), p=mval(env, pp), lib=lib, mode=mode), base=base)
    f = uff(shape, batch)
    if batch:
        xs = [classic(uff(shape[1:], False), dt, x[i], tt[i] if np.ndim(tt) else tt, pp[i] if np.ndim(pp) else pp) for i in range(shape[0])]
        want = np.array(xs, dtype=object).reshape(shape)
    else: want = classic(f, dt, x, tt, pp)
    A = lambda a: arr(a.copy()) if np.ndim(a) else a
    try:
        if lib == "np":
            m = symnp.load("diffeq_np")
            w = lambda r: arr(r) if np.ndim(r) else r
            g = {"": lambda x: w(f(x, 0, 0)), "t": lambda x, t: w(f(x, t, 0)), "p": lambda x, p: w(f(x, 0, p)), "tp": lambda x, t, p: w(f(x, t, p))}[mode.replace("b", "")]
            if "t" not in mode: want = classic(lambda x, t, p: f(x, 0, p), dt, x, tt, pp)
            k = {}
            if "t" in mode: k["t"] = A(tt)
            if "p" in mode: k["param"] = A(pp)
            got = m.rk4(g, dt, A(x), **k)
        else:
            m = tfsym.module("diffeq_tf")
            def pyf(x, t, p):
                return f(x, t, p)
            def g(x, t, p):
                r = tf.numpy_function(pyf, [x, tf.cast(t, tf.float64), tf.cast(p, tf.float64)], tf.float64); r.set_shape(x.shape); return r
            args = [fa(dt), fa(x)] + ([fa(tt)] if "t" in mode else []) + ([fa(pp)] if "p" in mode else [])
            def call(dt, x, *r):
                r = list(r); k = {}
                if "t" in mode: k["t"] = r.pop(0)
                if "p" in mode: k["param"] = r.pop(0)
                return m.rk4(g, dt, x, **k)
            got = tfsym.run(call, *args)
    except (ValueError, TypeError, IndexError, AttributeError) as ex:
        t.n_obl += 1
        return t.report(f"raises {type(ex).__name__}: {ex}", kw["case"](Env({n: base.get(n, Fraction(1, 5)) for n in poly.VARS})))
    if np.ndim(got) or np.ndim(want): t.equals("step", got, want, **kw)
    else: t.equal("step", symnp.unwrap(got), want, **kw)
def fa(a): return arr(np.asarray(a, dtype=object), 'f')

def taylor(t, dim, timed, back=False):
    """coefficients of the step length of the NumPy step against those of the exact solution"""
    t.paths += 1; h = var("h"); q = dim + (1 if timed else 0)
    idx = [ix for ix in itertools.product(range(5), repeat=q) if sum(ix) <= 4]
    F = [{ix: var(f"f{a}_" + "".join(map(str, ix))) for ix in idx} for a in range(dim)]
    x0 = [var(f"x{a}") for a in range(dim)]; t0 = var("t0")
    def f(x, tt=None):
        x = np.asarray(symnp.unwrap(x), dtype=object)
        dl = [truncate(x[a] - x0[a], h, 4) for a in range(dim)] + ([truncate(tt - t0, h, 4)] if timed else [])
        pw = [[R(1)] for _ in dl]
        for d, l in zip(dl, pw):
            for _ in range(4): l.append(truncate(l[-1] * d, h, 4))
        o = np.empty(dim, dtype=object)
        for a in range(dim):
            s = R(0)
            for ix in idx:
                w = F[a][ix] * Fraction(1, math.prod(math.factorial(i) for i in ix))
                for l, i in zip(pw, ix):
                    if i: w = truncate(w * l[i], h, 4)
                s = s + w
            o[a] = s
        return arr(o)
    m = symnp.load("diffeq_np")
    xa = np.empty(dim, dtype=object)
    for a in range(dim): xa[a] = x0[a]
    dt = -h if back else h
    r = np.asarray(symnp.unwrap(m.rk4(f, dt, arr(xa), t0) if timed else m.rk4(f, dt, arr(xa))), dtype=object)
    # exact solution: repeated total derivative of f along itself, polynomials in the derivative symbols
    z = (0,) * q; names = {list(F[a][ix].num)[0]: (a, ix) for a in range(dim) for ix in idx}
    def D(P):
        s = R(0)
        for mono, c in P.num.items():
            facs = []; i = 0; k = mono
            while k:
                e = k & poly.MASK
                if e: facs.append((i, e))
                k >>= poly.BITS; i += 1
            for (i, e) in facs:
                a, ix = names[1 << (poly.BITS * i)]
                rest = poly.Rat({mono - (1 << (poly.BITS * i)): c * e}, {}, P.q)
                inc = lambda ix, j: tuple(v + (1 if w == j else 0) for w, v in enumerate(ix))
                d = R(0)
                for b in range(dim): d = d + F[a][inc(ix, b)] * F[b][z]
                if timed: d = d + F[a][inc(ix, dim)]
                s = s + rest * d
        return s
    sg = -1 if back else 1
    for a in range(dim):
        y = F[a][z]; t.equal(f"order 0 component {a}", coeff(r[a], h, 0), x0[a])
        for k in range(1, 5):
            t.equal(f"order {k} component {a}", coeff(r[a], h, k), y * Fraction(sg ** k, math.factorial(k)),
                    case=lambda env: dict(x=[Fraction(1, 3)] * dim, dt=Fraction(1, 2), t=Fraction(1, 5), p=0, lib="np", mode="t" if timed else ""), base={})
            if k < 4: y = D(y)

def validate(t):
    for s, (lib, shape, mode, ts) in enumerate(CONFS):
        rng = random.Random(t.seed * 100 + s); rn = lambda sh: np.array([Fraction(rng.randint(-8, 8), 4) for _ in range(int(np.prod(sh)))], dtype=object).reshape(sh).tolist() if sh else Fraction(rng.randint(-8, 8), 4)
        case = dict(x=rn(shape), dt=Fraction(rng.choice([-3, 1, 5]), 8), t=rn(ts), p=rn(ts), lib=lib, mode=mode); t.validated += 1
        bad, msg = replay(dict(case))
        if bad: t.report("concrete validation", case)

CONFS = [(lib, sh, mode, ()) for lib in ("np", "tf") for sh in ((), (1,), (2,), (3,), (2, 2)) for mode in ("", "t", "p", "tp")]
CONFS += [("tf", sh, mode, ts) for sh, ts in (((2,), (2,)), ((3,), (3,)), ((2, 1), ())) for mode in ("b", "bt", "bp", "btp")]
if __name__ == "__main__":
    for lib, sh, mode, ts in CONFS:
        chk.tasks.append((f"{lib} state {sh} arguments '{mode}' times {ts}", run, dict(lib=lib, shape=sh, mode=mode, tshape=ts)))
    for dim, timed in ((1, False), (1, True), (2, False)) + (((2, True), (3, False)) if chk.tier == "thorough" else ()):
        for back in (False, True): chk.tasks.append((f"Taylor dim={dim} {'time-dependent' if timed else 'autonomous'} {'backwards' if back else ''}", taylor, dict(dim=dim, timed=timed, back=back)))
    chk.task(validate, name="translation validation")
    chk.main()
