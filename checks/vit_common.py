"""Hidden Markov model with positive symbolic probabilities (by their logarithm), MAP oracle and concrete checker."""
import math
from fractions import Fraction
import numpy as np, z3
from vlib import zsym, symnp
from vlib.zsym import RealT, FInt, LogP, zval, land, lor
from vlib.symnp import arr
from vlib.run import mval
from checks.fsc_common import pick, B

LB = 50    # |log probability| bound

class HMM:
    """nl*: negative logarithms of prior, transition and output probabilities"""
    def __init__(self, X, Y, N, y="sym"):
        self.X, self.Y, self.N = X, Y, N
        self.asm = []; self.prefer = []
        def lv(name):
            v = RealT.var(name); self.asm += [v.e <= LB, v.e >= -LB]; self.prefer += [z3.IsInt(4 * v.e), v.e <= 20, v.e >= 0]
            return v
        self.npr = [lv(f"pr{x}") for x in range(X)]
        self.nPi = [[lv(f"pi{x}_{w}") for w in range(X)] for x in range(X)]
        self.nPo = [[lv(f"po{x}_{s}") for s in range(Y)] for x in range(X)]
        P = lambda v: LogP(-v)
        self.prior = arr([P(v) for v in self.npr]); self.Pi = arr([[P(v) for v in r] for r in self.nPi]); self.Po = arr([[P(v) for v in r] for r in self.nPo])
        self.y = []
        for k in range(N):
            if y == "sym":
                v, c = FInt.var(f"y{k}", 0, Y); self.asm.append(c)
            else: v = y[k]
            self.y.append(v)
    def yarr(self): return arr(list(self.y), 'i')
    def oracle(self):
        """V[k][x]: least path cost ending in x; map sequence (any minimiser) and the uniqueness condition"""
        X, N = self.X, self.N
        V = [list(self.npr)]; cnt = [[True] * X]; Q = []
        for k in range(N):
            q = [[V[k][a] + self.nPi[a][b] + pick(self.nPo[b], self.y[k]) for a in range(X)] for b in range(X)]
            Q.append(q)
            V.append([symnp.fold_min(q[b]) for b in range(X)])
            nu = []
            for b in range(X):
                t = False
                for a in range(X):
                    c = cnt[k][a]
                    for a2 in range(X):
                        if a2 != a: c = land(c, q[b][a] < q[b][a2])
                    t = lor(t, c)
                nu.append(t)
            cnt.append(nu)
        t = False
        for a in range(X):
            c = cnt[N][a]
            for a2 in range(X):
                if a2 != a: c = land(c, V[N][a] < V[N][a2])
            t = lor(t, c)
        x = symnp.zsym_argmin(V[N]); seq = [x]
        for k in reversed(range(N)):
            x = symnp.zsym_argmin([pick([Q[k][b][a] for b in range(X)], x) for a in range(X)])
            seq.insert(0, x)
        return V, seq, zsym.bexpr(t)
    def case(self, m, **kw):
        d = dict(npr=mval(m, self.npr), nPi=mval(m, self.nPi), nPo=mval(m, self.nPo), y=mval(m, self.y)); d.update(kw)
        return d

def conc(case):
    f = lambda v: np.exp(-np.array(v, dtype=float))
    n = lambda v: [n(i) for i in v] if isinstance(v, list) else float(v)
    return f(n(case["npr"])), f(n(case["nPi"])), f(n(case["nPo"])), np.array([int(v) for v in case["y"]], dtype=int)

def dp(case):
    X = len(case["npr"]); y = [int(v) for v in case["y"]]; N = len(y)
    F = lambda v: Fraction(v)
    V = [[F(v) for v in case["npr"]]]; cnt = [[True] * X]; Q = []
    gap = None
    for k in range(N):
        q = [[V[k][a] + F(case["nPi"][a][b]) + F(case["nPo"][b][y[k]]) for a in range(X)] for b in range(X)]
        Q.append(q); V.append([min(r) for r in q])
        cnt.append([any(cnt[k][a] and all(q[b][a] < q[b][c] for c in range(X) if c != a) for a in range(X)) for b in range(X)])
    uniq = any(cnt[N][a] and all(V[N][a] < V[N][c] for c in range(X) if c != a) for a in range(X))
    x = min(range(X), key=lambda a: V[N][a]); seq = [x]
    for k in reversed(range(N)):
        x = min(range(X), key=lambda a: Q[k][x][a]); seq.insert(0, x)
    return V, seq, uniq

def cost_of(case, seq):
    y = [int(v) for v in case["y"]]
    c = Fraction(case["npr"][seq[0]])
    for k in range(len(y)): c += Fraction(case["nPi"][seq[k]][seq[k + 1]]) + Fraction(case["nPo"][seq[k + 1]][y[k]])
    return c

def check_result(name, case, v_map, Vl, log, V, seq, uniq):
    """message when the returned sequence or value table is wrong"""
    N = len(case["y"]); X = len(case["npr"])
    Vl = np.asarray(Vl)
    if Vl.shape != (N + 1, X): return f"{name}: value table of shape {Vl.shape}"
    for k in range(N + 1):
        for x in range(X):
            got = float(Vl[k, x])
            if not log:
                if got <= 0: return f"{name}: probability {got} at step {k} state {x}"
                got = -math.log(got)
            if not abs(got - float(V[k][x])) <= 1e-7 * (1 + abs(float(V[k][x]))) + 1e-7:
                return f"{name}: value at step {k} state {x} is {got}, exact {float(V[k][x])}"
    vm = [int(v) for v in np.asarray(v_map)]
    if len(vm) != N + 1 or any(not 0 <= v < X for v in vm): return f"{name}: state sequence {vm}"
    if uniq and vm != seq and float(cost_of(case, vm) - V[N][seq[-1]]) > 1e-7:
        return f"{name}: returns {vm} (cost {float(cost_of(case, vm))}), the unique most probable sequence is {seq} (cost {float(V[N][seq[-1]])})"
    return None

def rand_case(rng, X, Y, N):
    g = lambda *s: rng.integers(0, 40, size=s).tolist()
    q = lambda v: [q(i) for i in v] if isinstance(v, list) else Fraction(int(v), 8)
    return dict(npr=q(g(X)), nPi=q(g(X, X)), nPo=q(g(X, Y)), y=rng.integers(0, Y, size=N).tolist())
