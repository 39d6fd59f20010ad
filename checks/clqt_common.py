"""Continuous-time tracking problems: data smooth in time around the initial time, exact solutions as power series in the step length.

Every time-dependent coefficient is G0 + G1 s + G2 s^2 + G3 s^3 with s the time since t0; through h^4 the outputs of any
fourth-order scheme depend on no further Taylor coefficient.  The same differential equations are integrated exactly (Picard
iteration on polynomials) for the symbolic comparison and by fine Runge-Kutta steps for the replay."""
import importlib, random
from fractions import Fraction
from functools import reduce
import numpy as np
from vlib import symnp, poly, zsym
from vlib.poly import var, R
from vlib.symnp import arr, omatmul, osolve
from vlib.run import mval, Env
from checks.lqt_common import frm, eye, spd, zeros, cmp_lists, fl
symnp.DOMAIN["rat"] = True

K = 4                       # powers of the step length compared
def isf(a): return np.asarray(a).dtype != object
def mm(*a):
    def f(x, y):
        x = np.asarray(x); y = np.asarray(y)
        return x @ y if x.dtype != object and y.dtype != object else omatmul(x, y)
    return reduce(f, a)
def solve(a, b):
    if isf(a) and isf(b): return np.linalg.solve(a, b)
    b = np.asarray(b); return osolve(a, b.reshape(-1, 1))[:, 0] if b.ndim == 1 else osolve(a, b)

GROUPS = ["F", "L", "X", "U", "c", "H", "r"]
FINAL = ["XT", "HT", "rT"]
SYMM = {"X", "U", "XT", "S", "C"}

class CProb:
    """groups in sym are symbolic in all four Taylor coefficients, the rest small generic rationals; lqr: constant F, L, X, U, XT only"""
    def __init__(self, n, m, p, N, sym=(), seed=1, pT=None, lqr=False, t0=True, dt=True, order=K, deg=3, allsym=False):

        self.h = var("h"); self.mu = var("mu"); poly.set_trunc(self.h, order); self.order = order
        self.n, self.m, self.p, self.N, self.pT = n, m, p, N, pT or p
        self.lqr, self.sym, self.base = lqr, sym, {"h": Fraction(1, 8), "mu": Fraction(1, 2), "t0": Fraction(1, 3)}
        self.allsym = allsym
        self.rng = rng = random.Random(seed * 7919 + n * 101 + m * 31 + p * 7 + N)
        shp = {"F": (n, n), "L": (n, m), "X": (p, p), "U": (m, m), "c": (n,), "H": (p, n), "r": (p,)}
        if lqr: shp = {"F": (n, n), "L": (n, m), "X": (n, n), "U": (m, m)}
        self.d = {}
        for g, s in shp.items():
            for i in range(1 if lqr else deg + 1):
                v = frm(rng, *s)
                if g in SYMM: v = spd(rng, s[0]) if i == 0 else (v + v.T) * Fraction(1, 2)
                if i == 0 and g in ("L", "H"): v = v + eye(max(s))[:s[0], :s[1]]
                self.d[g, i] = self._mk(g, f"{g}{i}", v)
        if lqr: self.d["XT", 0] = self._mk("XT", "XT", spd(rng, n))
        else:
            q = self.pT
            self.d["XT", 0] = self._mk("XT", "XT", spd(rng, q)); self.d["HT", 0] = self._mk("HT", "HT", frm(rng, q, n) + eye(max(q, n))[:q, :n])
            self.d["rT", 0] = self._mk("rT", "rT", frm(rng, q))
        self.t0 = var("t0") if t0 else None
        self.dt = self.h if dt else None
        self.T = self.h * N if not dt else self.new("T0", Fraction(7, 3))     # not used when dt is given
        self.x0 = self.sy("x0", frm(rng, n))
        if "U" in sym: poly.positive_semidefinite(self.d["U", 0], strict=True)
    def new(self, name, b):
        self.base[name] = b; return var(name)
    def _mk(self, g, name, v): return self.sy(name, v, g in SYMM) if self.allsym or g in self.sym else v
    def sy(self, name, v, symm=False):
        o = np.empty(v.shape, dtype=object)
        for pos in np.ndindex(*v.shape):
            q = tuple(sorted(pos)) if symm else pos
            nm = name + "_" + "_".join(map(str, q)); self.base[nm] = v[q]; o[pos] = var(nm)
        return o
    def gen(self, name, *s, symbolic=True, symm=False):
        """further data (gains, terminal values): symbolic or generic"""
        v = frm(self.rng, *s)
        if symm: v = spd(self.rng, s[0])
        return self.sy(name, v, symm) if symbolic else v
    def at(self, g, s):
        c = [self.d[g, i] for i in range(4) if (g, i) in self.d]
        r = c[-1]
        for a in reversed(c[:-1]): r = r * s + a
        return r
    def make(self, mod):
        if self.lqr: return mod.CLQR(*[arr(self.d[g, 0].copy()) for g in ("F", "L", "X", "U", "XT")], self.T)
        off = self.t0 if self.t0 is not None else 0
        fn = lambda g: (lambda t: arr(np.array(self.at(g, symnp.unwrap(t) - off), copy=True)))
        e = {g: arr(self.d[g, 0].copy()) for g in FINAL}
        return mod.CLQT(fn("F"), fn("L"), fn("X"), fn("U"), e["XT"], fn("c"), fn("H"), fn("r"), e["HT"], e["rT"], self.T)
    def kw(self):
        k = {}
        if self.dt is not None: k["dt"] = self.dt
        if self.t0 is not None: k["t0"] = self.t0
        return k
    def case(self, env, **kw):
        d = {f"{g}{i}": mval(env, v) for (g, i), v in self.d.items()}
        d.update(x0=mval(env, self.x0), t0=None if self.t0 is None else mval(env, self.t0), dt=self.dt is not None, N=self.N, lqr=self.lqr)
        d.update({k: mval(env, v) for k, v in kw.items()})
        return d
    # exact integration over one step, from node k forwards (sgn=1) or backwards (sgn=-1)
    def ode(self, f, Y, k, sgn):
        P = {g: self.at(g, (self.mu + k) * self.h) for g in (("F", "L", "X", "U") if self.lqr else GROUPS)}
        P["W"] = mm(P["L"], solve(P["U"], P["L"].T))
        if self.lqr: P.update(H=eye(self.n), r=zeros(self.n), c=zeros(self.n))
        Y0 = [np.asarray(y) for y in Y]; cur = Y0
        for _ in range(self.order):
            D = f(P, cur)
            cur = [y0 + _map(lambda x: poly.integrate(x, self.mu) * self.h, dy) for y0, dy in zip(Y0, D)]
        return [_map(lambda x: poly.subs(x, self.mu, sgn), y) for y in cur]
    def ULT(self, k):
        s = self.h * k; return solve(self.at("U", s), self.at("L", s).T)
    def SvT(self):
        d = self.d
        if self.lqr: return d["XT", 0], zeros(self.n)
        return mm(d["HT", 0].T, d["XT", 0], d["HT", 0]), mm(d["HT", 0].T, d["XT", 0], d["rT", 0])

class CNum:
    """the same problem with floating-point data, exact solution by fine steps"""
    def __init__(self, case, h, sub=32):
        self.N, self.h, self.sub, self.lqr = case["N"], h, sub, case["lqr"]
        self.d = {(g, i): fl(case[f"{g}{i}"]) for g in GROUPS + FINAL for i in range(4) if f"{g}{i}" in case}
        self.n = self.d["F", 0].shape[0]
        self.t0 = None if case["t0"] is None else float(case["t0"]); self.x0 = fl(case["x0"])
        self.dt = h if case["dt"] else None; self.T = h * self.N if not case["dt"] else 7 / 3
    at = CProb.at; SvT = CProb.SvT
    def make(self, mod):
        if self.lqr: return mod.CLQR(*[self.d[g, 0].copy() for g in ("F", "L", "X", "U", "XT")], self.T)
        off = self.t0 or 0.0
        fn = lambda g: (lambda t: np.array(self.at(g, t - off), copy=True))
        return mod.CLQT(fn("F"), fn("L"), fn("X"), fn("U"), self.d["XT", 0], fn("c"), fn("H"), fn("r"), self.d["HT", 0], self.d["rT", 0], self.T)
    kw = CProb.kw
    def ode(self, f, Y, k, sgn):
        e = sgn * self.h / self.sub; Y = [np.asarray(y, dtype=float) for y in Y]
        def g(Y, s):
            P = {q: self.at(q, s) for q in (("F", "L", "X", "U") if self.lqr else GROUPS)}
            P["W"] = mm(P["L"], solve(P["U"], P["L"].T))
            if self.lqr: P.update(H=np.eye(self.n), r=np.zeros(self.n), c=np.zeros(self.n))
            return f(P, Y)
        ax = lambda Y, a, D: [y + a * d for y, d in zip(Y, D)]
        for i in range(self.sub):
            s = k * self.h + i * e
            k1 = g(Y, s); k2 = g(ax(Y, e / 2, k1), s + e / 2); k3 = g(ax(Y, e / 2, k2), s + e / 2); k4 = g(ax(Y, e, k3), s + e)
            Y = [y + e / 6 * (a + 2 * b + 2 * c + d) for y, a, b, c, d in zip(Y, k1, k2, k3, k4)]
        return Y
    def ULT(self, k):
        s = self.h * k; return solve(self.at("U", s), self.at("L", s).T)

def _map(f, a):
    o = np.empty(a.shape, dtype=object)
    for pos in np.ndindex(*a.shape): o[pos] = f(a[pos])
    return o
def identity(P): return np.eye(P.n) if isinstance(P, CNum) else eye(P.n)
def zero(P, *s): return np.zeros(s) if isinstance(P, CNum) else zeros(*s)

# ------------------------------------------------------------------ differential equations and exact solutions at the nodes
def riccati(P, Y):
    S, v = Y; F, W, H, X = P["F"], P["W"], P["H"], P["X"]
    return [-mm(F.T, S) - mm(S, F) + mm(S, W, S) - mm(H.T, X, H), -mm(H.T, X, P["r"]) + mm(S, P["c"]) - mm(F.T, v) + mm(S, W, v)]
def fwdvalue(P, Y):
    A, b, C = Y; F, W, c = P["F"], P["W"], P["c"]; Q = mm(P["H"].T, P["X"], P["H"])
    return [mm(F, A) - mm(C, Q, A), mm(F, b) + mm(C, P["H"].T, P["X"], P["r"]) - mm(C, Q, b) + c, mm(F, C) - mm(C, Q, C) + mm(C, F.T) + W]
def optimal(P, Y):
    S, v, x = Y; d = riccati(P, [S, v])
    return d + [mm(P["F"], x) + mm(P["W"], v - mm(S, x)) + P["c"]]

def x_bwd(P, S=None, v=None, N=None):
    """-> K, d, S, v lists of the exact backward pass ending at node N"""
    S0, v0 = P.SvT(); N = P.N if N is None else N
    S = [S0 if S is None else S]; v = [v0 if v is None else v]; Ks = []; ds = []
    for k in reversed(range(N)):
        a, b = P.ode(riccati, [S[0], v[0]], k + 1, -1); S.insert(0, a); v.insert(0, b)
        U = P.ULT(k); Ks.insert(0, mm(U, a)); ds.insert(0, mm(U, b))
    return Ks, ds, S, v
def x_fwd(P, Ks, ds, x0, zoh=False):
    """gains and offsets held over each step; zoh: the control itself held"""
    xs = [x0]; us = []
    for k in range(P.N):
        u = ds[k] - mm(Ks[k], xs[-1]); us.append(u)
        f = (lambda p, Y: [mm(p["F"], Y[0]) + mm(p["L"], u) + p["c"]]) if zoh else (lambda p, Y: [mm(p["F"], Y[0]) + mm(p["L"], ds[k] - mm(Ks[k], Y[0])) + p["c"]])
        xs.append(P.ode(f, [xs[-1]], k, 1)[0])
    return us, xs
def x_fb(P, A, b, C):
    L = [[A], [b], [C]]
    for k in range(P.N):
        for l, y in zip(L, P.ode(fwdvalue, [l[-1] for l in L], k, 1)): l.append(y)
    return L
def x_comb(P, Ks, ds, S, v, b, C):
    xs = [solve(identity(P) + mm(C[k], S[k]), b[k] + mm(C[k], v[k])) for k in range(len(S))]
    return [ds[k] - mm(Ks[k], xs[k]) for k in range(len(Ks))], xs
def x_opt(P):
    """states and controls of the optimally controlled system"""
    Ks, ds, S, v = x_bwd(P); xs = [P.x0]
    for k in range(P.N): xs.append(P.ode(optimal, [S[k], v[k], xs[-1]], k, 1)[2])
    return [ds[k] - mm(Ks[k], xs[k]) for k in range(P.N)], xs

# ------------------------------------------------------------------ concrete comparison
def orders(run, case, exact=False, hs=(1 / 128, 1 / 256, 1 / 512)):
    """run(P) -> list of (name, got list, want list). Violated: wrong lengths or shapes, or an error that does not vanish with the
    fifth power of the step length (exact: an error beyond rounding)."""
    E = []
    for h in hs:
        P = CNum(case, h); e = {}
        for nm, g, w in run(P):
            if len(g) != len(w): return f"{nm}: {len(g)} entries instead of {len(w)}"
            for k, (a, b) in enumerate(zip(g, w)):
                a = np.asarray(a, dtype=float); b = fl(b)
                if a.shape != b.shape: return f"{nm} step {k}: shape {a.shape} instead of {b.shape}"
                if not np.all(np.isfinite(a)): return f"{nm} step {k}: not finite"
                e[nm, k] = (np.max(np.abs(a - b), initial=0.0), 1 + np.max(np.abs(b), initial=0.0))
        E.append(e)
    for q in E[0]:
        e = [x[q][0] for x in E]; s = E[0][q][1]
        if exact:
            if max(e) > 1e-9 * s: return f"{q[0]} step {q[1]}: errors {e} at step lengths {hs}"
        elif e[-1] > 2e-13 * s and e[-2] / e[-1] < 20 and (e[-1] > 1e-6 * s or abs(e[-3] / e[-2] - e[-2] / e[-1]) < 0.15 * e[-2] / e[-1]): return f"{q[0]} step {q[1]}: errors {['%.3g' % i for i in e]} at step lengths {hs}"
    return None
