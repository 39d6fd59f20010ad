"""C24: Example finite-state models are well formed."""
import importlib, random, contextlib
from fractions import Fraction
import numpy as np, z3
from vlib.run import Check, mval
from vlib import zsym, symnp
from vlib.zsym import RealT, FInt, BoolT, zval
from vlib.symnp import arr, unwrap, asobj
from checks.c22 import go, shape_bad

chk = Check("C24",
    bounds_text="text model: every training and test text up to 6 characters over alphabets of 1 to 4 characters, orders 1 to 3 with up to 9 contexts, every error probability in [0,1], every outcome of the random draws; "
                "channel model: every outcome of the random draws up to 3 steps, every state list up to 4; game: every outcome of the random draws for up to 3 columns and 1 to 4 rows, every scene up to 4 x 3",
    outside="longer texts and larger alphabets, characters not in the alphabet, texts shorter than the model order, rounding",
    explanation="model source executed with symbolic characters, probabilities, scenes and random draws; tables asserted non-negative with unit row sums and equal to the smoothed counts and documented channel probabilities, index conversions inverse to each other, simulated data drawn from the tables, and the control problem in range with the documented costs")
chk.assumptions = ["floating point modelled as exact real arithmetic", "random draws modelled as arbitrary values of the requested range, numpy's generator draws from the probabilities it is given"]
Q = lambda v: np.vectorize(Fraction, otypes=[object])(np.asarray(v, dtype=object)) if np.asarray(v, dtype=object).size else np.asarray(v, dtype=object)

# ------------------------------------------------------------------ symbolic text
class SymText:
    """string over a given alphabet with symbolic characters (positions in the alphabet)"""
    _is_sym = True
    def __init__(self, alpha, ix): self.alpha, self.ix = alpha, list(ix)
    def __len__(self): return len(self.ix)
    def __iter__(self): return (SymText(self.alpha, [i]) for i in self.ix)
    def __getitem__(self, k):
        if isinstance(k, slice): return SymText(self.alpha, self.ix[k])
        if isinstance(k, FInt):
            for v, g in k.d.items():
                if not -len(self.ix) <= v < len(self.ix): zsym.CTX.sideconds.append((z3.Not(g), "string index in range"))
            ok = {v: g for v, g in k.d.items() if -len(self.ix) <= v < len(self.ix)}
            if not ok: raise IndexError("string index out of range")
            return SymText(self.alpha, [zsym.select_fint(FInt(ok), lambda v: self.ix[v])])
        if k >= len(self.ix) or k < -len(self.ix): raise IndexError("string index out of range")
        return SymText(self.alpha, [self.ix[k]])
    def lift(self, o):
        if isinstance(o, SymText): return o
        if isinstance(o, str):
            if any(c not in self.alpha for c in o): return None
            return SymText(self.alpha, [self.alpha.index(c) for c in o])
        return NotImplemented
    def __add__(self, o):
        o = self.lift(o); return o if o is NotImplemented else SymText(self.alpha, self.ix + o.ix)
    def __radd__(self, o): return self.lift(o) + self
    def __eq__(self, o):
        o = self.lift(o)
        if o is NotImplemented or o is None or len(o) != len(self): return False
        r = True
        for a, b in zip(self.ix, o.ix): r = zsym.land(r, a == b)
        return r
    def __ne__(self, o): return zsym.lnot(self == o)
    def conc(self): return "".join(self.alpha[i if isinstance(i, int) else i.__index__()] for i in self.ix)
    def __hash__(self): return hash(self.conc())
    def __str__(self): return self.conc()
    def index(self, c):
        o = self.lift(c)
        if o is None: raise ValueError("substring not found")
        for i in range(len(self) - len(o) + 1):
            if self[i:i + len(o)] == o: return i
        raise ValueError("substring not found")
    def find(self, c):
        try: return self.index(c)
        except ValueError: return -1
class SymDict(dict):
    """dictionary with string keys looked up with symbolic strings"""
    def __getitem__(self, k):
        if not isinstance(k, SymText): return dict.__getitem__(self, k)
        out = {}; miss = True
        for s, v in self.items():
            e = (k == s)
            if e is False: continue
            if e is True: return v
            out.setdefault(v, []).append(zsym.bexpr(e))
        hit = z3.Or(*[g for l in out.values() for g in l]) if out else z3.BoolVal(False)
        if not zsym.CTX.branch(hit): raise KeyError("text not in the model")
        if len(out) == 1: return next(iter(out))
        return FInt({v: z3.Or(*l) for v, l in out.items()})
    def get(self, k, d=None):
        try: return self[k]
        except KeyError: return d
    def __contains__(self, k): return dict.__contains__(self, k.conc() if isinstance(k, SymText) else k)

# ------------------------------------------------------------------ random draws
class Draws:
    """np.random with arbitrary outcomes: symbolic (nxt gives fresh values) or the recorded ones of a case"""
    def __init__(self, choose, real): self.choose, self.real, self.ps, self.cs, self.us = choose, real, [], [], []
    def seed(self, *a, **k): pass
    def default_rng(self, *a, **k): return self
    RandomState = default_rng
    def choice(self, a, size=None, replace=True, p=None, **k):
        n = a if isinstance(a, (int, np.integer)) else len(a); num = 1 if size is None else int(np.prod(size)); out = []
        for _ in range(num):
            self.ps.append(None if p is None else (np.asarray(p, dtype=float) if self.real else unwrap(asobj(p)).copy())); c = self.choose(len(self.cs), int(n)); self.cs.append(c); out.append(c)
        if p is not None and len(self.ps[-1]) != n: raise ValueError("'a' and 'p' must have same size")
        if not isinstance(a, (int, np.integer)): raise zsym.Unsupported("choice from a list")
        if size is None: return out[0]
        return np.array(out).reshape(size) if self.real else arr(np.array(out, dtype=object).reshape(size), 'i')
    def uniform(self, low=0.0, high=1.0, size=None):
        if size is not None: return np.full(size, (low + high) / 2) if self.real else arr(np.full(size, Fraction(1, 200), dtype=object))
        u = self.choose(len(self.us), None); self.us.append(u); return u * (high - low) + low if (low, high) != (0.0, 1.0) else u
    def random(self, size=None): return self.uniform(0.0, 1.0, size)
    def integers(self, lo, hi=None, size=None, **k): raise zsym.Unsupported("random integers")
class NP:
    def __init__(self, np_, rnd): self.__dict__.update(np_=np_, random=rnd)
    def __getattr__(self, n): return getattr(self.np_, n)
@contextlib.contextmanager
def drawing(m, rnd):
    keep = m.np; m.np = NP(keep, rnd)
    try: yield rnd
    finally: m.np = keep

# ------------------------------------------------------------------ text model
def counts_oracle(n, order, tx):
    """1 + number of occurrences per symbol, per context, and of every context continuation"""
    N = n ** order; c1 = [1] * n; cN = [1] * N; tr = [[1] * n for _ in range(n)]; trN = [[1] * n for _ in range(N)]
    ctx = [sum(tx[i + j] * n ** (order - 1 - j) for j in range(order)) for i in range(len(tx) - order + 1)]
    for a in tx: c1[a] += 1
    for a in ctx: cN[a] += 1
    for a, b in zip(tx, tx[1:]): tr[a][b] += 1
    for i, a in enumerate(ctx[:-1]): trN[a][tx[i + order]] += 1
    return c1, cN, tr, trN
@chk.family("text")
def replay(case):
    m = importlib.import_module("parallel_control.text_model"); chars, order, errp, tx = case["chars"], int(case["order"]), Fraction(case["errp"]), [int(i) for i in case["text"]]; n = len(chars); N = n ** order; s = "".join(chars[i] for i in tx)
    try:
        M = m.TextModel(chars, float(errp), order); c1, cN, tr, trN = counts_oracle(n, order, tx); F = lambda a: [float(v) for v in a]; e = float(errp)
        if list(M.textToIndex(s)) != tx: return True, f"textToIndex({s!r}) is {list(M.textToIndex(s))}"
        if M.indexToText(np.array(tx, dtype=int)) != s: return True, f"indexToText({tx}) is {M.indexToText(np.array(tx, dtype=int))!r}"
        ctxs = list(M.cond_chars)
        if len(ctxs) != N or len(set(ctxs)) != N or any(M.cond_dict[c] != i for i, c in enumerate(ctxs)): return True, f"contexts {ctxs} do not correspond one to one to the states"
        if M.indexToText(np.arange(N)) != "".join(c[-1] for c in ctxs): return True, "a context state does not convert to its last symbol"
        want = [("get1stOrderPo", M.get1stOrderPo(), [[(1 - e) * (i == j) + e / n for j in range(n)] for i in range(n)]), ("getNthOrderPo", M.getNthOrderPo(), [[(1 - e) * (ctxs[i][-1] == chars[j]) + e / n for j in range(n)] for i in range(N)])]
        if tx:
            want += [("get1stOrderPi", M.get1stOrderPi(s), [[v / sum(r) for v in r] for r in tr]), ("get1stOrderPrior", M.get1stOrderPrior(s), F(np.array(c1) / sum(c1)))]
        if len(tx) >= order:
            ix = {c: sum(chars.index(q) * n ** (order - 1 - j) for j, q in enumerate(c)) for c in ctxs}
            want += [("getNthOrderPi", M.getNthOrderPi(s), [[(trN[ix[a]][chars.index(b[-1])] / sum(trN[ix[a]])) if a[1:] == b[:-1] else 0.0 for b in ctxs] for a in ctxs]), ("getNthOrderPrior", M.getNthOrderPrior(s), [cN[ix[a]] / sum(cN) for a in ctxs])]
    except Exception as ex: return True, f"text model with chars={chars!r}, order {order}, text {s!r} raises {type(ex).__name__}: {ex}"
    for nm, a, b in want:
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape: return True, f"{nm} has shape {a.shape} instead of {b.shape}"
        if np.any(a < 0) or not np.all(np.abs(a.sum(axis=-1) - 1) < 1e-9): return True, f"{nm} is not a probability table: {a.tolist()} for text {s!r}"
        if not np.all(np.abs(a - b) < 1e-7): return True, f"{nm} is {a.tolist()} instead of {b.tolist()} for chars={chars!r}, error probability {float(errp)}, order {order}, text {s!r}"
    return False, "agrees"
def fints(nm, k, n):
    vs, asm = [], []
    for i in range(k):
        v, c = FInt.var(f"{nm}{i}", 0, n); vs.append(v); asm.append(c)
    return vs, asm
def make(chars, errp, order):
    m = symnp.load("text_model"); M = m.TextModel(chars, errp, order)
    M.chars = SymText(chars, range(len(chars))); M.char_dict = SymDict(M.char_dict); M.cond_dict = SymDict(M.cond_dict); return m, M
def cnt(vs): return z3.RealVal(1) + z3.Sum([z3.RealVal(0)] + [z3.If(zsym.bexpr(v), z3.RealVal(1), z3.RealVal(0)) for v in vs if v is not False])
TOL = z3.RealVal("1/1000000000")
def close(a, b): return z3.And(a - b <= TOL, b - a <= TOL)
def dist(t, nm, row, A, case):
    for p, r in enumerate(row): t.prove(f"{nm} entry {p} not negative", zval(r) >= 0, A, case, family="text")
    t.prove(f"{nm} sums to one", z3.Sum([zval(r) for r in row]) == 1, A, case, family="text")
def text(t, what, chars, order, K):
    n = len(chars); N = n ** order; e = RealT.var("errp"); ix, asm = fints("c", K, n); asm = asm + [e.e >= 0, e.e <= 1]
    case = lambda mod: dict(chars=chars, order=order, errp=mval(mod, e), text=[mval(mod, i) for i in ix])
    def body():
        m, M = make(chars, e if what in ("Po", "PoN") else Fraction(1, 10), order); tx = SymText(chars, ix)
        f = dict(Po=lambda: M.get1stOrderPo(), PoN=lambda: M.getNthOrderPo(), Pi=lambda: M.get1stOrderPi(tx), Prior=lambda: M.get1stOrderPrior(tx), PiN=lambda: M.getNthOrderPi(tx), PriorN=lambda: M.getNthOrderPrior(tx),
                 index=lambda: (M.textToIndex(tx), M.indexToText(arr(np.array(ix, dtype=object), 'i'))), contexts=lambda: (list(M.cond_chars), dict(M.cond_dict), M.indexToText(arr(np.arange(N).astype(object), 'i'))))[what]
        return f()
    ctx = [[(s // n ** (order - 1 - j)) % n for j in range(order)] for s in range(N)]      # symbols of the canonical context s
    for A, r in go(t, body, case, "text", asm):
        bad = lambda msg: (t.solve(A), setattr(t, "n_obl", t.n_obl + 1), t.report(msg, case(t.solve(A)[1]), "text"))
        if what == "index":
            a = unwrap(asobj(r[0]))
            if a.shape != (K,) or len(r[1]) != K: bad(f"lengths {a.shape} and {len(r[1])}"); continue
            for i in range(K):
                t.prove(f"index {i}", zsym.bexpr(ix[i] == a[i]), A, case, family="text")
                if K: c = SymText(chars, [0]).lift(r[1]).ix[i]; t.prove(f"symbol {i}", zsym.bexpr(c == ix[i]), A, case, family="text")
            continue
        if what == "contexts":
            cc, cd, s = r; s = SymText(chars, [0]).lift(s); t.n_obl += 1
            ok = len(cc) == N and len(set(cc)) == N and all(len(c) == order and set(c) <= set(chars) for c in cc) and all(cd.get(c) == i for i, c in enumerate(cc)) and len(s) == N
            if not ok: t.report("contexts", case(t.solve(A)[1]), "text"); continue
            t.n_dis += 1
            for i, c in enumerate(cc): t.prove(f"last symbol of context {i}", zsym.bexpr(s.ix[i] == chars.index(c[-1])), A, case, family="text")
            continue
        r = unwrap(asobj(r)); shape = dict(Po=(n, n), PoN=(N, n), Pi=(n, n), Prior=(n,), PiN=(N, N), PriorN=(N,))[what]
        if shape_bad(t, r, shape, A, case, "text"): continue
        for i, row in enumerate(r if r.ndim == 2 else r[None]): dist(t, f"row {i}", row, A, case)
        # the state of the N-th order model standing for a context is whatever the model says
        st = [symnp.load("text_model").TextModel(chars, 0.1, order).cond_dict["".join(chars[k] for k in c)] for c in ctx] if what.endswith("N") else None
        occ = lambda c, i: (lambda z: z)(conj([ix[i + j] == k for j, k in enumerate(c)]))
        if what in ("Po", "PoN"):
            for i in range(shape[0]):
                for j in range(n):
                    s, l = (i, i) if what == "Po" else (st[i], ctx[i][-1]); t.prove(f"output {i}->{j}", zval(r[s, j]) == (e.e / n + (1 - e.e if l == j else 0)), A, case, family="text")
        elif what == "Pi":
            for a in range(n):
                k = [cnt([conj([ix[i] == a, ix[i + 1] == b]) for i in range(K - 1)]) for b in range(n)]
                for b in range(n): t.prove(f"transition {a}->{b}", zval(r[a, b]) * z3.Sum(k) == k[b], A, case, family="text")
        elif what == "Prior":
            for a in range(n): t.prove(f"prior {a}", zval(r[a]) * (n + K) == cnt([ix[i] == a for i in range(K)]), A, case, family="text")
        elif what == "PriorN":
            for s, c in enumerate(ctx): t.prove(f"prior {c}", zval(r[st[s]]) * (N + K - order + 1) == cnt([occ(c, i) for i in range(K - order + 1)]), A, case, family="text")
        elif what == "PiN":
            for s, c in enumerate(ctx):
                k = [cnt([occ(c + [b], i) for i in range(K - order)]) for b in range(n)]
                for q, d in enumerate(ctx):
                    w = k[d[-1]] if c[1:] == d[:-1] else z3.RealVal(0)
                    t.prove(f"transition {c}->{d}", close(zval(r[st[s], st[q]]) * z3.Sum(k), w), A, case, family="text")
def conj(l):
    r = True
    for v in l: r = zsym.land(r, v)
    return r

@chk.family("noisy")
def replay_noisy(case):
    m = importlib.import_module("parallel_control.text_model"); chars, errp, tx, dr = case["chars"], Fraction(case["errp"]), [int(i) for i in case["text"]], [int(i) for i in case["draws"]]; n = len(chars); e = float(errp)
    with drawing(m, Draws(lambda k, n: dr[k], True)) as d:
        try: out = m.TextModel(chars, e).makeNoisyText("".join(chars[i] for i in tx))
        except Exception as ex: return True, f"makeNoisyText raises {type(ex).__name__}: {ex}"
    if out != "".join(chars[i] for i in dr[:len(tx)]): return True, f"makeNoisyText gives {out!r} for the draws {dr} over {chars!r}"
    for i, c in enumerate(tx):
        w = [(1 - e) * (j == c) + e / n for j in range(n)]
        if not np.allclose(d.ps[i], w, atol=1e-9): return True, f"symbol {chars[c]!r} is disturbed with probabilities {list(d.ps[i])} instead of {w}"
    return False, "agrees"
def noisy(t, chars, K):
    n = len(chars); e = RealT.var("errp"); ix, a1 = fints("c", K, n); dr, a2 = fints("d", K, n); asm = a1 + a2 + [e.e >= 0, e.e <= 1]
    case = lambda mod: dict(chars=chars, errp=mval(mod, e), text=[mval(mod, i) for i in ix], draws=[mval(mod, i) for i in dr])
    def body():
        m, M = make(chars, e, 1)
        with drawing(m, Draws(lambda k, n_: dr[k], False)) as d: return M.makeNoisyText(SymText(chars, ix)), d.ps
    for A, (out, ps) in go(t, body, case, "noisy", asm):
        out = SymText(chars, [0]).lift(out)
        if len(out) != K or len(ps) != K: t.n_obl += 1; t.report(f"length {len(out)} with {len(ps)} draws", case(t.solve(A)[1]), "noisy"); continue
        for i in range(K):
            t.prove(f"symbol {i}", zsym.bexpr(out.ix[i] == dr[i]), A, case, family="noisy")
            for j in range(n): t.prove(f"probability {i},{j}", zval(ps[i][j]) == e.e / n + z3.If(zsym.bexpr(ix[i] == j), 1 - e.e, z3.RealVal(0)), A, case, family="noisy")

# ------------------------------------------------------------------ channel model
p0, p1, p2, q0, q1 = [Fraction(v) for v in ("3/100", "1/10", "1/20", "1/10", "3/10")]
def ge():
    """state 2 b + s: channel s and signal b switch independently, the output is wrong with the probability of the channel"""
    S = [[1 - p0, p0], [p1, 1 - p1]]; B = [[1 - p2, p2], [p2, 1 - p2]]; q = [q0, q1]
    return [[S[x % 2][z % 2] * B[x // 2][z // 2] for z in range(4)] for x in range(4)], [[1 - q[x % 2] if y == x // 2 else q[x % 2] for y in range(2)] for x in range(4)], [Fraction(1, 4)] * 4
@chk.family("channel")
def replay_ge(case):
    m = importlib.import_module("parallel_control.ge_model_np"); dr = [int(i) for i in case["draws"]]; T = int(case["T"]); Pi, Po, pr = ge(); M = m.GEModel(); fl = lambda a: np.asarray(a, dtype=float)
    for nm, a, b in (("Pi", M.Pi, Pi), ("Po", M.Po, Po), ("prior", M.prior, pr)):
        if np.shape(a) != np.shape(b) or not np.allclose(a, fl(b), atol=1e-9): return True, f"channel model {nm} is {np.asarray(a).tolist()} instead of {fl(b).tolist()}"
    with drawing(m, Draws(lambda k, n: dr[k], True)) as d:
        try: xs, ys = M.genData(T)
        except Exception as ex: return True, f"genData({T}) raises {type(ex).__name__}: {ex}"
    if list(xs) != dr[1:1 + 2 * T:2] or list(ys) != dr[2:2 + 2 * T:2]: return True, f"genData returns states {list(xs)} and outputs {list(ys)} for the draws {dr}"
    w = [pr] + [v for k in range(T) for v in (Pi[dr[2 * k - 1] if k else dr[0]], Po[dr[2 * k + 1]])]
    for k, (a, b) in enumerate(zip(d.ps, w)):
        if a is None or len(a) != len(b) or not np.allclose(a, fl(b), atol=1e-9): return True, f"draw {k} of genData uses the probabilities {a} instead of {fl(b)}"
    bl = list(m.get_b_list(np.array(xs)))
    if bl != [x // 2 for x in xs]: return True, f"get_b_list({list(xs)}) is {bl}"
    return False, "agrees"
def channel(t, T):
    Pi, Po, pr = ge(); dr, asm = [], []
    for k in range(2 * T + 1):
        v, c = FInt.var(f"d{k}", 0, 2 if k and k % 2 == 0 else 4); dr.append(v); asm.append(c)
    case = lambda mod: dict(T=T, draws=[mval(mod, v) for v in dr])
    def body():
        m = symnp.load("ge_model_np"); M = m.GEModel()
        with drawing(m, Draws(lambda k, n: dr[k], False)) as d: xs, ys = M.genData(T)
        return M, unwrap(asobj(xs)), unwrap(asobj(ys)), d.ps, unwrap(asobj(m.get_b_list(xs)))
    for A, (M, xs, ys, ps, b) in go(t, body, case, "channel", asm):
        P = lambda nm, c: t.prove(nm, c, A, case, family="channel")
        tabs = [unwrap(asobj(v)) for v in (M.Pi, M.Po, M.prior)]
        if any(a.shape != s for a, s in zip(tabs, ((4, 4), (4, 2), (4,)))) or xs.shape != (T,) or ys.shape != (T,) or b.shape != (T,) or len(ps) != 2 * T + 1: t.n_obl += 1; t.report("shapes", case(t.solve(A)[1]), "channel"); continue
        for a, w in zip(tabs, (Pi, Po, pr)): P("table", z3.And(*[close(zval(u), zval(v)) for u, v in zip(a.reshape(-1), np.array(w, dtype=object).reshape(-1))]))
        for i in range(4): P("first state", close(zval(ps[0][i]), zval(pr[i])))
        for k in range(T):
            P(f"state {k}", zsym.bexpr(xs[k] == dr[2 * k + 1])); P(f"output {k}", zsym.bexpr(ys[k] == dr[2 * k + 2])); P(f"signal {k}", zsym.bexpr(b[k] == dr[2 * k + 1] // 2))
            for i in range(4): P(f"transition {k}", close(zval(ps[2 * k + 1][i]), zval(zsym.select_fint(dr[2 * k - 1] if k else dr[0], lambda x: Pi[x][i]))))
            for i in range(2): P(f"emission {k}", close(zval(ps[2 * k + 2][i]), zval(zsym.select_fint(dr[2 * k + 1], lambda x: Po[x][i]))))

# ------------------------------------------------------------------ game
MASK = [Fraction(v, 10) for v in (5, 3, 1, 3, 5)]
def scene(T, nx, moves):
    """two walkers start in the middle, step by their moves within the track and mark their surroundings"""
    tr = np.ones((nx, T), dtype=int).astype(object)
    for r in range(2):
        x = nx // 2
        for k in range(T):
            x = min(nx - 1, max(0, x + moves[r * T + k]))
            for i in range(5):
                if 0 <= x - 2 + i < nx: tr[x - 2 + i, k] = tr[x - 2 + i, k] * MASK[i]
    return tr, nx // 2
MV = lambda u: -1 if u < Fraction(1, 5) else (1 if u > Fraction(4, 5) else 0)
@chk.family("scene")
def replay_scene(case):
    m = importlib.import_module("parallel_control.finite_model_np"); T, nx, us = int(case["T"]), int(case["nx"]), [Fraction(u) for u in case["us"]]
    with drawing(m, Draws(lambda k, n: float(us[k]), True)):
        try: tr, x0 = m.FiniteModel().genData(T, nx)
        except Exception as ex: return True, f"genData({T}, {nx}) raises {type(ex).__name__}: {ex}"
    w, w0 = scene(T, nx, [-1 if float(u) < 0.2 else (1 if float(u) > 1.0 - 0.2 else 0) for u in us])
    if tr.shape != w.shape or not np.allclose(tr, w.astype(float)) or x0 != w0: return True, f"genData({T}, {nx}) gives start {x0} and scene {np.asarray(tr).tolist()} instead of {w0} and {w.astype(float).tolist()} for the draws {[float(u) for u in us]}"
    return False, "agrees"
def game_scene(t, T, nx):
    us = [RealT.var(f"u{i}") for i in range(2 * T)]; asm = [z3.And(u.e >= 0, u.e < 1) for u in us]; case = lambda mod: dict(T=T, nx=nx, us=[mval(mod, u) for u in us])
    def body():
        m = symnp.load("finite_model_np")
        with drawing(m, Draws(lambda k, n: us[k], False)): tr, x0 = m.FiniteModel().genData(T, nx)
        return unwrap(asobj(tr)), x0, [(-1 if bool(u < Fraction(1, 5)) else (1 if bool(u > Fraction(4, 5)) else 0)) for u in us]
    for A, (tr, x0, mv) in go(t, body, case, "scene", asm):
        w, w0 = scene(T, nx, mv)
        if shape_bad(t, tr, (nx, T), A, case, "scene"): continue
        t.prove("scene", z3.And(zval(x0) == w0, *[zval(a) == zval(b) for a, b in zip(tr.reshape(-1), w.reshape(-1))]), A, case, family="scene")
@chk.family("game")
def replay_game(case):
    m = importlib.import_module("parallel_control.finite_model_np"); tr = Q(case["track"]); nx, T = tr.shape
    try: g = m.FiniteModel().getFSC(tr.astype(float))
    except Exception as ex: return True, f"getFSC raises {type(ex).__name__}: {ex} for a {nx} x {T} scene"
    if len(g.f) != T or len(g.L) != T or np.shape(g.LT) != (nx,): return True, "the control problem has the wrong horizon or terminal cost"
    for k in range(T):
        wf = [[min(nx - 1, max(0, x + u - 1)) for u in range(3)] for x in range(nx)]; wL = [[float(tr[x, k]) + abs(u - 1) for u in range(3)] for x in range(nx)]
        if np.asarray(g.f[k]).tolist() != wf: return True, f"transitions at step {k} are {np.asarray(g.f[k]).tolist()} instead of {wf}"
        if np.shape(g.L[k]) != (nx, 3) or not np.allclose(g.L[k], wL): return True, f"costs at step {k} are {np.asarray(g.L[k]).tolist()} instead of {wL}"
    return (True, f"terminal costs {list(g.LT)}") if np.any(np.asarray(g.LT) != 0) else (False, "agrees")
def game(t, nx, T):
    from checks.c22 import RV
    tr = RV("t", nx, T); case = lambda mod: dict(track=mval(mod, tr))
    for A, g in go(t, lambda: symnp.load("finite_model_np").FiniteModel().getFSC(arr(tr.copy())), case, "game"):
        f, L, LT = [unwrap(asobj(v)) for v in g.f], [unwrap(asobj(v)) for v in g.L], unwrap(asobj(g.LT))
        if len(f) != T or len(L) != T or any(v.shape != (nx, 3) for v in f + L) or LT.shape != (nx,): t.n_obl += 1; t.report("shapes", case(t.solve(A)[1]), "game"); continue
        for k in range(T):
            for x in range(nx):
                for u in range(3):
                    t.prove(f"transition {k},{x},{u}", zsym.bexpr(f[k][x, u] == min(nx - 1, max(0, x + u - 1))), A, case, family="game")
                    t.prove(f"cost {k},{x},{u}", zval(L[k][x, u]) == zval(tr[x, k]) + abs(u - 1), A, case, family="game")
        t.prove("terminal cost", z3.And(*[zval(v) == 0 for v in LT]), A, case, family="game")

def validate(t):
    for s in range(10):
        rng = random.Random(t.seed * 100 + s); chars = ["ab", "b a", "abcd", "x"][s % 4]; n = len(chars); K = rng.randint(3, 12); q = [rng.randrange(n) for _ in range(K)]
        for fam, case in (("text", dict(chars=chars, order=rng.randint(1, 3), errp=Fraction(rng.randint(0, 8), 8), text=q)), ("noisy", dict(chars=chars, errp=Fraction(1, 4), text=q, draws=[rng.randrange(n) for _ in q])),
                          ("channel", dict(T=4, draws=[rng.randrange(2 if k and k % 2 == 0 else 4) for k in range(9)])), ("scene", dict(T=4, nx=rng.randint(1, 6), us=[Fraction(rng.randint(0, 99), 100) + Fraction(1, 300) for _ in range(8)])),
                          ("game", dict(track=[[Fraction(rng.randint(0, 9), 4) for _ in range(3)] for _ in range(4)]))):
            t.validated += 1; bad, msg = chk.replays[fam](dict(case))
            if bad: t.report("concrete validation: " + fam, case, fam)

if __name__ == "__main__":
    big = chk.tier == "thorough"
    for chars, order, K in (("ab", 1, 4), ("b a", 1, 4), ("abc", 1, 3), ("x", 1, 3), ("dbca", 1, 3), ("ab", 2, 4), ("ba", 2, 5), ("ab", 3, 5), ("cab", 2, 4), ("x", 2, 3)) + ((("ab", 1, 6), ("abc", 1, 5), ("ba", 2, 7), ("ab", 3, 7)) if big else ()):
        for w in ("Pi", "Prior", "index") if order == 1 else (): chk.task(text, name=f"{w} {chars!r} text length {K}", what=w, chars=chars, order=1, K=K)
        for w in ("PiN", "PriorN"): chk.task(text, name=f"{w} {chars!r} order {order} text length {K}", what=w, chars=chars, order=order, K=K)
        for w in ("Po",) * (order == 1) + ("PoN", "contexts"): chk.task(text, name=f"{w} {chars!r} order {order}", what=w, chars=chars, order=order, K=0)
    chk.task(text, name="PiN text of the order's length", what="PiN", chars="ab", order=2, K=2)
    chk.task(text, name="Pi text of one character", what="Pi", chars="ab", order=1, K=1)
    for chars, K in (("ab", 3), ("abc", 2), ("x", 2), ("dbca", 2)): chk.task(noisy, name=f"noisy {chars!r} length {K}", chars=chars, K=K)
    for T in (1, 2, 3): chk.task(channel, name=f"channel T={T}", T=T)
    for T, nx in ((1, 1), (1, 4), (2, 2), (2, 4)) + (((3, 3),) if big else ()): chk.task(game_scene, name=f"scene T={T} rows={nx}", T=T, nx=nx)
    for nx, T in ((1, 1), (2, 2), (4, 3), (3, 1)): chk.task(game, name=f"game {nx}x{T}", nx=nx, T=T)
    chk.task(validate, name="translation validation")
    chk.main()
