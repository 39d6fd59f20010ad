"""C25: Problem constructors validate shapes, apply defaults and replicate parameters."""
import importlib, itertools, random
import numpy as np, z3
from vlib.run import Check, mval
from vlib import zsym, symnp
from vlib.zsym import BoolT
from checks.c22 import go

chk = Check("C25",
    bounds_text="every combination of dimensions of every array (unbounded positive integers), horizons 1 to 3, all pairs of parameters being constant, per-step, per-step with a wrong length, or defaulted (the others constant, per-step or defaulted together), horizon given or deduced, one array of a wrong rank",
    outside="horizon zero, whether omitted references and cross terms should follow an output dimension that varies over the steps (see the late defects), a given horizon that contradicts the lists, arrays of FSC problems with additional axes, contents of the arrays (e.g. transition targets out of range), element types",
    explanation="constructor source executed with arrays whose dimensions are z3 integers (paths explored at every comparison of dimensions); acceptance asserted equivalent to the dimension rules of the problem, and on acceptance the fields asserted to be the given arrays, replicated over the horizon, or the documented defaults")
chk.assumptions = ["only the shapes of the arguments matter to validation; numpy's eye, zeros and ones return the requested shapes"]

# ------------------------------------------------------------------ arrays with symbolic dimensions
class Dim:
    def __init__(self, e): self.e = e
    def _o(self, o): return o.e if isinstance(o, Dim) else (z3.IntVal(int(o)) if isinstance(o, (int, np.integer)) and not isinstance(o, bool) else None)
    def __eq__(self, o): o = self._o(o); return False if o is None else BoolT(self.e == o)
    def __ne__(self, o): o = self._o(o); return True if o is None else BoolT(self.e != o)
    def __lt__(self, o): return BoolT(self.e < self._o(o))
    def __le__(self, o): return BoolT(self.e <= self._o(o))
    def __gt__(self, o): return BoolT(self.e > self._o(o))
    def __ge__(self, o): return BoolT(self.e >= self._o(o))
    def __add__(self, o): return Dim(self.e + self._o(o))
    __radd__ = __add__
    def __mul__(self, o): return Dim(self.e * self._o(o)) if self._o(o) is not None else NotImplemented
    __rmul__ = __mul__
    def __sub__(self, o): return Dim(self.e - self._o(o))
    def __bool__(self): return zsym.CTX.branch(self.e != 0)
    def __hash__(self): raise zsym.Unsupported("dimension used as a key")
    def __int__(self): raise zsym.Unsupported("concrete value of a dimension")
    __index__ = __int__
    def __repr__(self): return str(self.e)
class Shp:
    """array of which only the shape is known; tag says where it comes from"""
    def __init__(self, tag, *dims): self.tag, self.shape = tag, tuple(d if isinstance(d, Dim) else Dim(z3.IntVal(int(d))) for d in dims)
    dtype = np.dtype(float)
    @property
    def ndim(self): return len(self.shape)
    def __len__(self):
        if not self.shape: raise TypeError("len() of unsized object")
        raise zsym.Unsupported("len of an array with symbolic dimensions")
    @property
    def T(self): return Shp((".T", self.tag), *self.shape[::-1])
    def copy(self, *a): return self
    def astype(self, *a, **k): return self
    @property
    def size(self):
        r = 1
        for d in self.shape: r = d * r
        return r
def tup(s): return tuple(s) if isinstance(s, (tuple, list)) else (s,)
class NP:
    """the numpy functions a constructor may use on such arrays"""
    ndarray = Shp; float64 = np.float64; newaxis = None
    def __getattr__(self, n):
        if n in ("integer", "floating", "number", "result_type", "dtype", "inf"): return getattr(np, n)
        raise zsym.Unsupported(f"numpy.{n} on arrays with symbolic dimensions")
    def eye(self, n, m=None, *a, **k): return Shp("eye", n, n if m is None else m)
    def identity(self, n, *a, **k): return Shp("eye", n, n)
    def zeros(self, s, *a, **k): return Shp("zeros", *tup(s))
    def ones(self, s, *a, **k): return Shp("ones", *tup(s))
    def full(self, s, v, *a, **k): return Shp("ones" if v == 1 else "zeros" if v == 0 else f"full {v}", *tup(s))
    def shape(self, a): return a.shape
    def ndim(self, a): return a.ndim
    def asarray(self, a, *r, **k): return a
    array = asarray
    def isscalar(self, a): return isinstance(a, (int, float))

# ------------------------------------------------------------------ specification
LQTP = ["F", "L", "X", "U", "XT", "c", "H", "r", "HT", "rT", "Z", "s", "M"]; STEP = ["F", "L", "X", "U", "c", "H", "r", "Z", "s", "M"]; OPT = ["XT", "c", "H", "r", "HT", "rT", "Z", "s", "M"]
RANK = dict(F=2, L=2, X=2, U=2, XT=2, c=1, H=2, r=1, HT=2, rT=1, Z=2, s=1, M=2, f=2, LT=1)
def length(kinds, T):
    """lengths of the lists; 'const' means replicated"""
    return {p: (T if k in ("const", "list", None) else T + int(k)) for p, k in kinds.items()}
def spec(prob, T, S, kinds, Tgiven):
    """S[p]: list over time of shapes (tuples of z3 integers or ints), None when defaulted. Returns (ok condition as list of (lhs, rhs) or None when rejected outright, expected defaults)"""
    ln = length(kinds, T); steps = STEP if prob == "LQT" else ["f", "L"]
    if not Tgiven and not any(kinds[p] not in ("const", None) for p in (["F", "L", "X", "U"] if prob == "LQT" else ["f", "L"])): return None, None
    if any(ln[p] != T for p in steps): return None, None
    if any(S[p] is not None and any(len(s) != RANK[p] for s in S[p]) for p in kinds): return None, None
    eqs = []
    def want(p, *dims):
        for k, s in enumerate(S[p]):
            d = dims(k) if callable(dims) else dims
            eqs.extend((a, b(k) if callable(b) else b) for a, b in zip(s, d))
    if prob == "FSC":
        x, u = S["f"][0]; dflt = dict(LT=("ones", (x,)))
        for p, (kind, dm) in dflt.items():
            if S[p] is None: S[p] = [dm]
        want("f", x, u); want("L", x, u); want("LT", x); return eqs, dflt
    x, u, p0 = S["F"][0][0], S["L"][0][1], S["X"][0][0]
    dflt = dict(XT=("eye", (p0, p0)), c=("zeros", (x,)), H=("eye", (p0, x)), r=("zeros", (p0,)), HT=("eye", (p0, x)), rT=("zeros", (p0,)), Z=("eye", (u, u)), s=("zeros", (u,)), M=("zeros", (p0, u)))
    for p, (kind, dm) in dflt.items():
        if S[p] is None: S[p] = [dm] * (T if p in STEP else 1)
    pk, pT = (lambda k: S["X"][k][0]), S["XT"][0][0]
    want("F", x, x); want("L", x, u); want("X", pk, pk); want("U", u, u); want("c", x); want("H", pk, x); want("r", pk); want("Z", u, u); want("s", u); want("M", pk, u); want("XT", pT, pT); want("HT", pT, x); want("rT", pT)
    return eqs, dflt

# ------------------------------------------------------------------ concrete replay
@chk.family("shapes")
def replay(case):
    prob, T, kinds, Tgiven = case["prob"], int(case["T"]), case["kinds"], bool(case["Tgiven"]); names = list(kinds)
    dims = {p: None if v is None else [tuple(int(d) for d in s) for s in v] for p, v in case["dims"].items()}
    if max([1] + [d for v in dims.values() if v for s in v for d in s]) > 60: return False, "dimensions too large to replay"
    rng = np.random.default_rng(0); arrs = {}
    for p in names:
        if dims[p] is None: arrs[p] = None
        elif kinds[p] == "const": arrs[p] = rng.normal(size=dims[p][0])
        else: arrs[p] = [rng.normal(size=s) for s in dims[p]]
    cls = getattr(importlib.import_module("parallel_control." + dict(LQT="lqt_np", FSC="fsc_np")[prob]), prob)
    S = {p: None if v is None else (v * (T if p in STEP + ["f"] and kinds[p] == "const" else 1)) for p, v in dims.items()}
    eqs, dflt = spec(prob, T, S, kinds, Tgiven); ok = eqs is not None and all(a == b for a, b in eqs)
    desc = f"{prob}.checkAndExpand with " + ", ".join(f"{p}: {'default' if dims[p] is None else (dims[p][0] if kinds[p] == 'const' else dims[p])}" for p in names) + f", T={T if Tgiven else None}"
    try: o = cls.checkAndExpand(**arrs, **(dict(T=T) if Tgiven else {}))
    except Exception as ex: return ok, (f"{desc} is rejected with {type(ex).__name__}: {ex}" if ok else "rejected")
    if not ok: return True, f"{desc} is accepted although the dimensions or lengths do not match"
    for p in names:
        v = getattr(o, p); per = p in STEP + ["f"]
        if per and (not isinstance(v, list) or len(v) != T): return True, f"{desc}: {p} is not a list over the horizon"
        for k, a in enumerate(v if per else [v]):
            w = (np.eye(*dflt[p][1]) if dflt[p][0] == "eye" else getattr(np, dflt[p][0])(dflt[p][1])) if arrs[p] is None else (arrs[p][k] if kinds[p] != "const" else arrs[p])
            if np.shape(a) != np.shape(w) or not np.array_equal(a, w): return True, f"{desc}: {p} at step {k} is {np.asarray(a).tolist()} instead of {np.asarray(w).tolist()}"
    return False, "accepted as specified"

# ------------------------------------------------------------------ symbolic
iv = lambda mod, d: mod.eval(d, model_completion=True).as_long()
def one(t, prob, T, kinds, Tgiven, ranks=None):
    ranks = ranks or {}; names = LQTP if prob == "LQT" else ["f", "L", "LT"]; kinds = {p: kinds[p] for p in names}; ln = length(kinds, T); vs = []; A0 = []
    def arrp(p, k):
        ds = []
        for i in range(ranks.get(p, RANK[p]) if k == 0 else RANK[p]):
            v = z3.Int(f"{p}_{k}_{i}"); vs.append(v); A0.append(v >= 1); ds.append(Dim(v))
        return Shp((p, k), *ds)
    arrs = {p: None if kinds[p] is None else (arrp(p, 0) if kinds[p] == "const" else [arrp(p, k) for k in range(ln[p])]) for p in names}
    e = lambda a: tuple(d.e for d in a.shape); per = STEP + ["f"]
    S = {p: None if v is None else ([e(v)] * (T if p in per + ["L"] and kinds[p] == "const" else 1) if not isinstance(v, list) else [e(i) for i in v]) for p, v in arrs.items()}
    if prob == "LQT": per = STEP
    else: per = ["f", "L"]
    case = lambda mod: dict(prob=prob, T=T, kinds=kinds, Tgiven=Tgiven, dims={p: None if v is None else ([[iv(mod, d) for d in e(v)]] if not isinstance(v, list) else [[iv(mod, d) for d in e(i)] for i in v]) for p, v in arrs.items()})
    eqs, dflt = spec(prob, T, S, kinds, Tgiven); ok = z3.BoolVal(False) if eqs is None else z3.And(*[z3.IntVal(a) if isinstance(a, int) else a for a in []], *[a == b for a, b in eqs])
    name = dict(LQT="lqt_np", FSC="fsc_np")[prob]
    def body():
        m = symnp.load(name); keep = m.np; m.np = NP()
        try: return getattr(m, prob).checkAndExpand(**arrs, **(dict(T=T) if Tgiven else {}))
        finally: m.np = keep
    pref = [v <= 3 for v in vs]
    for A, o in raised(t, body, A0):
        if isinstance(o, zsym.Raised):
            t.prove("rejected only on a mismatch", z3.Not(ok), A, case, prefer=pref); continue
        t.prove("accepted only when all dimensions match", ok, A, case, prefer=pref)
        for p in names:
            v = getattr(o, p); st, mod = None, None
            if p in per and (not isinstance(v, list) or len(v) != T): t.n_obl += 1; t.report(f"{p} not replicated", case(t.solve(A)[1]), "shapes"); continue
            for k, a in enumerate(v if p in per else [v]):
                tag, dm = (dflt[p][0], dflt[p][1]) if arrs[p] is None else ((p, 0 if kinds[p] == "const" else k), S[p][k])
                if not isinstance(a, Shp) or a.tag != tag or len(a.shape) != len(dm): t.n_obl += 1; t.report(f"{p} at step {k}", case(t.solve(A)[1]), "shapes"); continue
                t.prove(f"{p} at step {k}", z3.And(*[x.e == y for x, y in zip(a.shape, dm)]), A, case, prefer=pref)
def raised(t, body, A0):
    zsym.CTX.max_paths = 5000
    for pc, r, sc in zsym.explore(body, A0): t.paths += 1; yield A0 + pc, r
def batch(t, cfgs):
    for c in cfgs: one(t, **c)

def configs(big):
    out = []; given = {p: "const" for p in LQTP}; lists = {p: ("list" if p in STEP else "const") for p in LQTP}; dfl = {p: (None if p in OPT else "const") for p in LQTP}
    modes = lambda p: (["const", "list", "+1", "-1"] if p in STEP else ["const"]) + ([None] if p in OPT else [])
    def add(T, kinds, Tg): 
        if Tg or T != 1 or not any(k == "-1" for k in kinds.values()):
            out.append(dict(prob="LQT", T=T, kinds=dict(kinds), Tgiven=Tg))
    for T in (1, 2, 3):
        for base in (given, lists, dfl): add(T, base, base is not lists); add(T, base, False)
        for p in LQTP:
            for m in modes(p):
                for base in (given, lists, dfl):
                    if T == 1 and m == "-1": continue
                    # the horizon is that of the lists of F, L, X, U; when none of them is a list of the right length it has to be given
                    k = {**base, p: m}
                    if k[p] == base[p] and base is not given: continue
                    first = [q for q in ("F", "L", "X", "U") if k[q] not in ("const", None)]
                    if first and k[first[0]] != "list": continue
                    add(T, k, not first)
    T = 2
    for p, q in itertools.combinations(LQTP, 2):
        for m in modes(p):
            for n in modes(q):
                if m == "const" or n == "const": continue
                for base in (given, dfl) if big else (given,):
                    k = {**base, p: m, q: n}; first = [s for s in ("F", "L", "X", "U") if k[s] not in ("const", None)]
                    if first and k[first[0]] != "list": continue
                    add(T, k, not first)
    for p in LQTP: out.append(dict(prob="LQT", T=2, kinds=given, Tgiven=True, ranks={p: 3 - RANK[p]})); out.append(dict(prob="LQT", T=1, kinds=given, Tgiven=True, ranks={p: 3}))
    for T in (1, 2, 3):
        for a in ("const", "list"):
            for b in ("const", "list", "+1", "-1") if a == "list" else ("const", "list"):
                for l in ("const", None):
                    if T == 1 and b == "-1": continue
                    out.append(dict(prob="FSC", T=T, kinds=dict(f=a, L=b, LT=l), Tgiven=a == b == "const"))
                    if a == b == "const": out.append(dict(prob="FSC", T=T, kinds=dict(f=a, L=b, LT=l), Tgiven=False))
    return out
def validate(t):
    for s in range(60):
        rng = random.Random(t.seed * 100 + s); T = rng.randint(1, 3); prob = "FSC" if s % 4 == 3 else "LQT"; x, u, p = 2, 3, 2
        kinds = dict(f=rng.choice(["const", "list"]), L=rng.choice(["const", "list"]), LT=rng.choice(["const", None])) if prob == "FSC" else {q: rng.choice((["const", "list"] if q in STEP else ["const"]) + ([None] if q in OPT else [])) for q in LQTP}
        good = dict(F=(x, x), L=(x, u), X=(p, p), U=(u, u), XT=(p, p), c=(x,), H=(p, x), r=(p,), HT=(p, x), rT=(p,), Z=(u, u), s=(u,), M=(p, u), f=(x, u), LT=(x,))
        dims = {q: None if kinds[q] is None else [list(good[q]) for _ in range(T if kinds[q] == "list" else 1)] for q in kinds}
        if s % 3 == 1:
            q = rng.choice([q for q in kinds if dims[q]]); k = rng.randrange(len(dims[q])); dims[q][k][rng.randrange(len(dims[q][k]))] += 1
        case = dict(prob=prob, T=T, kinds=kinds, Tgiven=not any(kinds[q] == "list" for q in (("F", "L", "X", "U") if prob == "LQT" else ("f", "L"))), dims=dims); t.validated += 1
        bad, msg = replay(case)
        if bad: t.report("concrete validation", case, "shapes")

if __name__ == "__main__":
    cf = configs(chk.tier == "thorough"); n = 24
    for i in range(n): chk.task(batch, name=f"configurations {i + 1}/{n}", cfgs=cf[i::n])
    chk.task(validate, name="translation validation")
    chk.main()
