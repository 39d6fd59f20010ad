"""Finite-state control: symbolic problems, Bellman oracle and concrete property checker (shared by C02-C04)."""
import importlib, itertools
from fractions import Fraction
import numpy as np
import z3
from vlib import zsym, symnp
from vlib.zsym import RealT, FInt, ite, zval, mkbool, land, lor
from vlib.symnp import arr
from vlib.run import mval, mfrac

BOUND = 10 ** 6

class Prob:
    """symbolic finite-state control problem"""
    def __init__(self, X, U, T, ftab="sym", ints=False, x0="sym", bound=BOUND, const=False, tag=""):
        self.X, self.U, self.T = X, U, T
        self.asm = []; self.prefer = []
        self.f = []; self.L = []
        for k in range(T):
            if const and k > 0:
                self.f.append(self.f[0]); self.L.append(self.L[0]); continue
            Lk = np.empty((X, U), dtype=object); fk = np.empty((X, U), dtype=object)
            for x in range(X):
                for u in range(U):
                    Lk[x, u] = self.cost(f"L{tag}{k}_{x}_{u}", bound, ints)
                    if ftab == "sym":
                        i, c = FInt.var(f"f{tag}{k}_{x}_{u}", 0, X); self.asm.append(c); fk[x, u] = i
                    else:
                        fk[x, u] = int(ftab(k, x, u)) % X
            self.f.append(arr(fk, 'i')); self.L.append(arr(Lk, 'i' if ints else 'f'))
        lt = np.empty(X, dtype=object)
        for x in range(X): lt[x] = self.cost(f"T{tag}_{x}", bound, False)
        self.LT = arr(lt)
        if x0 == "sym":
            self.x0, c = FInt.var(f"x0{tag}", 0, X); self.asm.append(c)
        else: self.x0 = x0

    def cost(self, name, bound, ints):
        if ints:
            i = z3.Int(name); e = z3.ToReal(i); self.asm += [i <= bound, i >= -bound]
            return RealT(e)
        v = RealT.var(name); self.asm += [v.e <= bound, v.e >= -bound]
        self.prefer += [z3.IsInt(v.e), v.e <= 50, v.e >= -50]
        return v

    def oracle(self):
        """Q[k][x][u], V[k][x], uniq[k][x] by Bellman's principle"""
        V = [None] * (self.T + 1); Q = [None] * self.T; uq = [None] * (self.T + 1)
        V[self.T] = [self.LT[x] for x in range(self.X)]
        uq[self.T] = [True] * self.X
        for k in reversed(range(self.T)):
            Q[k] = []; V[k] = []; uq[k] = []
            for x in range(self.X):
                q = []; nu = []
                for u in range(self.U):
                    fx = self.f[k][x, u]
                    q.append(self.L[k][x, u] + pick(V[k + 1], fx)); nu.append(pick(uq[k + 1], fx))
                Q[k].append(q)
                V[k].append(symnp.fold_min(q))
                t = False
                for u in range(self.U):
                    c = nu[u]
                    for w in range(self.U):
                        if w != u: c = land(c, q[u] < q[w])
                    t = lor(t, c)
                uq[k].append(t)
        return Q, V, uq

    def case(self, m, **extra):
        d = dict(f=[mval(m, np.asarray(a)) for a in self.f], L=[mval(m, np.asarray(a)) for a in self.L], LT=mval(m, np.asarray(self.LT)),
                 x0=mval(m, self.x0), int_costs=self.L[0]._kind == 'i')
        d.update(extra)
        return d

def pick(vals, i):
    if isinstance(i, FInt): return zsym.select_fint(i, lambda v: vals[v])
    return vals[int(i)]

def B(x):
    return zsym.bexpr(x)

def traj_claim(p, V, xs, us, x0):
    """trajectory starts at x0, obeys f, and its cost is the optimal cost V[0](x0)"""
    T = p.T
    if len(xs) != T + 1 or len(us) != T: return False
    cl = [B(xs[0] == x0)]
    cost = 0
    for k in range(T):
        cl.append(B(pick2(p.f[k], xs[k], us[k]) == xs[k + 1]))
        cost = cost + pick2(p.L[k], xs[k], us[k])
    cost = cost + pick(list(p.LT), xs[T])
    cl.append(zval(cost) == zval(pick(V[0], x0)))
    return z3.And(*cl)

def in_range(v, n):
    if isinstance(v, FInt): return B(land(v >= 0, v < n))
    return z3.BoolVal(isinstance(v, (int, np.integer)) and 0 <= v < n)

def pick2(a, x, u):
    return pick([pick(list(a[i]), u) if True else None for i in range(a.shape[0])], x)

# ------------------------------------------------------------------ concrete oracle

def conc(case):
    f = [np.array([[int(v) for v in r] for r in a]) for a in case["f"]]
    if case.get("int_costs"): L = [np.array([[int(v) for v in r] for r in a], dtype=int) for a in case["L"]]
    else: L = [np.array([[float(v) for v in r] for r in a]) for a in case["L"]]
    LT = np.array([float(v) for v in case["LT"]])
    return f, L, LT, int(case["x0"])

def dp(f, L, LT):
    T = len(f); X, U = f[0].shape
    V = [None] * (T + 1); V[T] = [Fraction(float(v)) for v in LT]; uq = [None] * (T + 1); uq[T] = [True] * X; Q = [None] * T
    for k in reversed(range(T)):
        Q[k] = [[Fraction(float(L[k][x, u])) + V[k + 1][f[k][x, u]] for u in range(U)] for x in range(X)]
        V[k] = [min(q) for q in Q[k]]
        uq[k] = [any(all(q[u] < q[w] for w in range(U) if w != u) and uq[k + 1][f[k][x, u]] for u in range(U)) for x, q in enumerate(Q[k])]
    return Q, V, uq

def close(a, b, scale):
    try: return abs(float(a) - float(b)) <= 1e-9 * (1 + scale)
    except OverflowError: return False

def check_values(name, Vs, us, Q, V, scale):
    T = len(Q); X = len(V[0])
    if len(Vs) != T + 1 or len(us) != T: return f"{name}: {len(Vs)} value functions / {len(us)} controls for horizon {T}"
    for k in range(T + 1):
        for x in range(X):
            if not close(np.asarray(Vs[k])[x], V[k][x], scale):
                return f"{name}: value at step {k} state {x} is {np.asarray(Vs[k])[x]}, optimal is {float(V[k][x])}"
    for k in range(T):
        for x in range(X):
            u = int(np.asarray(us[k])[x])
            if not (0 <= u < len(Q[k][x])) or not close(Q[k][x][u], V[k][x], scale):
                return f"{name}: control {u} at step {k} state {x} does not attain the optimal value"
    return None

def check_traj(name, f, L, LT, x0, us, xs, best, scale):
    T = len(f)
    if len(xs) != T + 1 or len(us) != T: return f"{name}: trajectory of wrong length ({len(xs)} states, {len(us)} controls, horizon {T})"
    if int(xs[0]) != x0: return f"{name}: starts at {xs[0]}, not {x0}"
    c = Fraction(0)
    for k in range(T):
        x, u, y = int(xs[k]), int(us[k]), int(xs[k + 1])
        if not (0 <= x < f[k].shape[0] and 0 <= u < f[k].shape[1]): return f"{name}: state/control out of range at step {k}"
        if f[k][x, u] != y: return f"{name}: step {k} goes from {x} with control {u} to {y}, transition says {f[k][x, u]}"
        c += Fraction(float(L[k][x, u]))
    c += Fraction(float(LT[int(xs[T])]))
    if not close(c, best, scale): return f"{name}: trajectory cost {float(c)}, optimal {float(best)}"
    return None

def scale_of(L, LT): return sum(float(np.abs(l).max()) for l in L) + float(np.abs(LT).max())

def rand_case(rng, X, U, T, int_costs=False, bound=9):
    return dict(f=[[[int(rng.integers(X)) for u in range(U)] for x in range(X)] for k in range(T)],
                L=[[[int(rng.integers(-bound, bound + 1)) for u in range(U)] for x in range(X)] for k in range(T)],
                LT=[Fraction(int(rng.integers(-4 * bound, 4 * bound + 1)), 4) for x in range(X)], x0=int(rng.integers(X)), int_costs=int_costs)
