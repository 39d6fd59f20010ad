"""Linear quadratic tracking problems with exact rational (symbolic or constant) data, dynamic-programming oracle and concrete checkers."""
import random
from fractions import Fraction
import numpy as np, z3
from vlib import zsym, symnp, poly
from vlib.poly import Rat, var, R
from vlib.symnp import arr, omatmul, osolve
from vlib.run import mval
symnp.DOMAIN["rat"] = True

def frm(rng, *s, lo=-4, hi=4, den=4):
    a = np.empty(s, dtype=object)
    for p in np.ndindex(*s): a[p] = Fraction(rng.randint(lo, hi), den)
    return a
def eye(n):
    a = np.empty((n, n), dtype=object); a.fill(Fraction(0))
    for i in range(n): a[i, i] = Fraction(1)
    return a
def mm(*a):
    r = a[0]
    for b in a[1:]: r = mulo(r, b)
    return r
def mulo(a, b):
    r = omatmul(np.asarray(a), np.asarray(b))
    return r
def zeros(*s):
    a = np.empty(s, dtype=object); a.fill(0); return a
def spd(rng, n, c=1):
    G = frm(rng, n, n); return mm(G, G.T) + eye(n) * c

GROUPS = ["F", "L", "X", "U", "c", "H", "r", "Z", "s", "M"]
FINAL = ["XT", "HT", "rT"]
def shape_of(g, n, m, p, pT):
    return {"F": (n, n), "L": (n, m), "X": (p, p), "U": (m, m), "c": (n,), "H": (p, n), "r": (p,), "Z": (m, m), "s": (m,), "M": (p, m),
            "XT": (pT, pT), "HT": (pT, n), "rT": (pT,)}[g]
SYM = {"X", "U", "XT"}       # symmetric matrices

class Prob:
    """sym: set of group names symbolic at every step, or (group, step) pairs; everything else constant generic rationals.
    canon: no cross terms, Z = I."""
    def __init__(self, n, m, p, T, sym=(), seed=1, pT=None, canon=False, x0sym=True, lti=False, small=False):
        pT = pT or p
        self.n, self.m, self.p, self.T, self.pT = n, m, p, T, pT
        rng = random.Random(seed * 1000003 + n * 101 + m * 31 + p * 7 + T)
        self.base = {}; self.sym = sym; self.cfg = dict(n=n, m=m, p=p, T=T, seed=seed)
        self.d = {}
        for k in range(1 if lti else T):
            M = zeros(p, m) if canon else frm(rng, p, m, den=8)
            U = spd(rng, m)
            X = spd(rng, p, 2)
            v = {"F": frm(rng, n, n) + eye(n) * Fraction(1, 2), "L": frm(rng, n, m) + (eye(max(n, m))[:n, :m]), "X": X, "U": U, "c": frm(rng, n), "H": frm(rng, p, n) + eye(max(n, p))[:p, :n],
                 "r": frm(rng, p), "Z": eye(m) if canon else frm(rng, m, m, den=8) + eye(m), "s": frm(rng, m), "M": M}
            for g in GROUPS: self.d[g, k] = self._mk(g, k, v[g])
        if lti:
            for k in range(1, T):
                for g in GROUPS: self.d[g, k] = self.d[g, 0]
        v = {"XT": spd(rng, pT, 1), "HT": frm(rng, pT, n) + eye(max(n, pT))[:pT, :n], "rT": frm(rng, pT)}
        for g in FINAL: self.d[g, 0] = self._mk(g, 0, v[g])
        self.domain()
        x0 = frm(rng, n)
        self.x0 = self._sym("x0", x0) if x0sym else x0
    def domain(self):
        """the problems covered: control costs positive definite, running and final costs positive semidefinite"""
        done = set()
        for k in range(self.T):
            X, U, M = self.d["X", k], self.d["U", k], self.d["M", k]
            if id(X) in done: continue
            done.add(id(X))
            if any(self._is(g, k) for g in "XUM"):
                poly.positive_semidefinite(U, strict=True)
                J = np.concatenate([np.concatenate([X, M], axis=1), np.concatenate([M.T, U], axis=1)])
                if J.shape[0] <= 4: poly.positive_semidefinite(J)
                else: poly.positive_semidefinite(X)
        poly.positive_semidefinite(self.d["XT", 0])
    def _is(self, g, k): return g in self.sym or (g, k) in self.sym
    def _mk(self, g, k, v):
        return self._sym(f"{g}{k}", v, g in SYM) if self._is(g, k) else v
    def _sym(self, name, v, symm=False):
        o = np.empty(v.shape, dtype=object)
        for pos in np.ndindex(*v.shape):
            q = tuple(sorted(pos)) if symm else pos
            nm = name + "_" + "_".join(map(str, q))
            self.base[nm] = v[q]; o[pos] = var(nm)
        return o
    def lst(self, g): return [arr(self.d[g, k].copy()) for k in range(self.T)]
    def fin(self, g): return arr(self.d[g, 0].copy())
    def kwargs(self):
        kw = {g: self.lst(g) for g in GROUPS}; kw.update({g: self.fin(g) for g in FINAL}); return kw
    def make(self, mod):
        kw = self.kwargs()
        return mod.LQT.checkAndExpand(kw.pop("F"), kw.pop("L"), kw.pop("X"), kw.pop("U"), **kw)
    def x0a(self): return arr(np.array(self.x0, copy=True))
    def case(self, m, **kw):
        d = {g: [mval(m, self.d[g, k]) for k in range(self.T)] for g in GROUPS}
        d.update({g: mval(m, self.d[g, 0]) for g in FINAL}); d["x0"] = mval(m, self.x0); d.update(kw)
        return d
    def g(self, name, k=0): return self.d[name, k]

# ------------------------------------------------------------------ oracle

def stage(d, k, y=None):
    """quadratic stage cost as symmetric matrix Q over (x, u, 1): 1/2 z' Q z; d maps (group, step) to arrays"""
    H, r, X, Z, s, U, M = [d[g, k] for g in ("H", "r", "X", "Z", "s", "U", "M")]
    a = np.concatenate([H, zeros(H.shape[0], Z.shape[1]), -r[:, None]], axis=1)
    b = np.concatenate([zeros(Z.shape[0], H.shape[1]), Z, -s[:, None]], axis=1)
    return mm(a.T, X, a) + mm(b.T, U, b) + mm(a.T, M, b) + mm(b.T, M.T, a)

def dp(d, T, n, m):
    """exact dynamic programming: V[k] symmetric (n+1)x(n+1) over (x,1), gains K[k], d[k] with u = -K x + d"""
    a = np.concatenate([d["HT", 0], -d["rT", 0][:, None]], axis=1)
    V = [mm(a.T, d["XT", 0], a)]; K = []; D = []; B = []
    for k in reversed(range(T)):
        F, L, c = d["F", k], d["L", k], d["c", k]
        G = np.concatenate([np.concatenate([F, L, c[:, None]], axis=1), np.concatenate([zeros(1, n + m), np.array([[1]], dtype=object)], axis=1)])
        Q = stage(d, k) + mm(G.T, V[0], G)
        xi = list(range(n)) + [n + m]; ui = list(range(n, n + m))
        Quu = Q[np.ix_(ui, ui)]; Qux = Q[np.ix_(ui, xi)]
        S = osolve(Quu, Qux)
        V.insert(0, Q[np.ix_(xi, xi)] - mm(Qux.T, S))
        K.insert(0, S[:, :n]); D.insert(0, -S[:, n]); B.insert(0, Quu)
    return V, K, D, B

def rollout(d, T, K, D, x0):
    x = x0; xs = [x]; us = []
    for k in range(T):
        u = D[k] - mulo(K[k], x)
        x = mulo(d["F", k], x) + d["c", k] + mulo(d["L", k], u)
        us.append(u); xs.append(x)
    return us, xs

def totalcost(d, T, us, xs):
    half = Fraction(1, 2)
    e = mulo(d["HT", 0], xs[T]) - d["rT", 0]
    J = half * mulo(mulo(e, d["XT", 0]), e)
    for k in range(T):
        e = mulo(d["H", k], xs[k]) - d["r", k]; w = mulo(d["Z", k], us[k]) - d["s", k]
        J = J + half * mulo(mulo(e, d["X", k]), e) + half * mulo(mulo(w, d["U", k]), w) + mulo(mulo(e, d["M", k]), w)
    return J

# ------------------------------------------------------------------ concrete side

def cdict(case):
    """case -> (dict of Fraction arrays, T, n, m)"""
    T = len(case["F"])
    def A(v): return np.array([A(i) if isinstance(i, list) else Fraction(i) for i in v], dtype=object) if isinstance(v, list) else Fraction(v)
    d = {}
    for g in GROUPS:
        for k in range(T): d[g, k] = A(case[g][k])
    for g in FINAL: d[g, 0] = A(case[g])
    x0 = A(case["x0"])
    return d, T, d["F", 0].shape[0], d["L", 0].shape[1], x0
def fl(a): return np.array(a, dtype=float)
def mklqt(mod, d, T):
    L = lambda g: [fl(d[g, k]) for k in range(T)]
    return mod.LQT.checkAndExpand(L("F"), L("L"), L("X"), L("U"), fl(d["XT", 0]), L("c"), L("H"), L("r"), fl(d["HT", 0]), fl(d["rT", 0]), L("Z"), L("s"), L("M"))
def off(got, want, tol=1e-6):
    """largest deviation relative to the scale of want, or None when within tol"""
    got = np.asarray(got, dtype=float); want = fl(want)
    if got.shape != want.shape: return f"shape {got.shape} instead of {want.shape}"
    if not np.all(np.isfinite(got)): return "not finite"
    e = np.max(np.abs(got - want), initial=0.0); s = 1 + np.max(np.abs(want), initial=0.0)
    return None if e <= tol * s else f"{got.tolist()} instead of {want.tolist()}"
def cmp_lists(name, got, want, tol=1e-6):
    if len(got) != len(want): return f"{name}: {len(got)} entries instead of {len(want)}"
    for k, (a, b) in enumerate(zip(got, want)):
        e = off(a, b, tol)
        if e: return f"{name} step {k}: {e}"
    return None
def split(V, n):
    """S, v lists (value 1/2 x'Sx - v'x) from the oracle's matrices"""
    return [v[:n, :n] for v in V], [-v[:n, n] for v in V]
