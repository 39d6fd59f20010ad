"""Symbolic scalars over z3 terms: reals (RealT), finite-domain integers (FInt), booleans (BoolT) and positive
reals represented by their logarithm (LogP), plus path exploration for Python-level branches on symbolic conditions."""
import sys, time, math
from fractions import Fraction
import numpy as _np
import z3

class Unsupported(Exception):
    """The code does something the symbolic layer cannot represent: the check is inconclusive."""

class NeedsPaths(Unsupported):
    """a branch on a symbolic condition outside path exploration"""

class CannotMerge(Exception):
    pass

class PathAbort(BaseException):
    pass

INF = float('inf')

def nice(x):
    """Exact rational meant by a float literal: the simplest rational that rounds to it, else its binary value."""
    f = Fraction(x)
    if f.denominator <= 1000000:
        return f
    for lim in (1000, 1000000):
        g = f.limit_denominator(lim)
        if float(g) == x:
            return g
    g = Fraction(repr(float(x)))
    return g

def is_num(x):
    return isinstance(x, (int, float, Fraction, _np.integer, _np.floating, _np.bool_))

def to_frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, _np.integer)):
        return Fraction(int(x))
    x = float(x)
    if math.isinf(x) or math.isnan(x):
        raise Unsupported("non-finite constant")
    return nice(x)

# A Fraction standing for a scalar argument stays exact when the code multiplies it by a float literal
EXACT = [True]
def _exact_ops():
    def wrap(name, orig):
        def op(self, o):
            if EXACT[0] and isinstance(o, float) and not (math.isinf(o) or math.isnan(o)):
                o = to_frac(o)
            return orig(self, o)
        op.__name__ = name
        return op
    if getattr(Fraction, "_exact", False): return
    for n in ("add", "sub", "mul", "truediv"):
        for q in (f"__{n}__", f"__r{n}__"): setattr(Fraction, q, wrap(q, getattr(Fraction, q)))
    Fraction._exact = True
_exact_ops()

def _isinf(x):
    return isinstance(x, (float, _np.floating)) and math.isinf(x)

def zval(x):
    """z3 real term of a number or symbolic scalar."""
    if isinstance(x, RealT):
        return x.e
    if isinstance(x, FInt):
        return x.as_real().e if not isinstance(x.as_real(), Fraction) else zval(x.as_real())
    if isinstance(x, BoolT):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    f = to_frac(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}") if f.denominator != 1 else z3.RealVal(f.numerator)

# ---------------------------------------------------------------- context / path exploration

class Ctx:
    def __init__(self):
        self.assume = []
        self.raw = []           # the same, before simplification
        self.path = []          # z3 conditions taken
        self.decisions = []     # forced prefix
        self.pos = 0
        self.new = []           # alternatives found on this run
        self.exploring = False
        self.solver_time = 0.0
        self.solver_calls = 0
        self.paths = 0
        self.max_paths = 20000
        self.branch_timeout = 20000
        self.task_level = False # the whole task is re-executed once per path
        self.sideconds = []     # obligations raised by the executed code (index in range, ...), as (cond, text)

    def check(self, *conds, timeout=20000):
        s = z3.Solver()
        s.set("timeout", timeout)
        for a in self.assume: s.add(a)
        for a in self.path: s.add(a)
        for c in conds: s.add(c)
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        self.solver_calls += 1
        return r

    def branch(self, e):
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        raw = e
        e = z3.simplify(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        if not self.exploring:
            raise NeedsPaths("branch on a symbolic condition outside path exploration")
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            self.path.append(e if d else z3.Not(e)); self.raw.append(raw if d else z3.Not(raw))
            return d
        rt = self.check(e, timeout=self.branch_timeout)
        rf = self.check(z3.Not(e), timeout=self.branch_timeout)
        if rt == z3.unsat and rf == z3.unsat:
            raise PathAbort()
        if rt == z3.unknown or rf == z3.unknown:
            rt = rf = z3.sat          # explore both; infeasible paths are harmless
        if rf == z3.unsat:
            d = True
        elif rt == z3.unsat:
            d = False
        else:
            d = True
            self.new.append(self.decisions[:self.pos] + [False])
        self.decisions = self.decisions[:self.pos] + [d]
        self.pos += 1
        self.path.append(e if d else z3.Not(e)); self.raw.append(raw if d else z3.Not(raw))
        return d

CTX = Ctx()

def reset(assume=()):
    global CTX
    c = Ctx()
    c.assume = list(assume)
    CTX = c
    return c

def explore(fn, assume=()):
    """Run fn() on every feasible path; yields (path_condition list, result, side conditions)."""
    c = CTX
    outer = (c.assume, c.decisions, c.pos, c.path, c.new, c.exploring, c.sideconds)
    c.assume = (list(assume) if assume else list(c.assume)) + (list(c.path) if c.exploring else [])
    work = [[]]
    c.exploring = True
    try:
        while work:
            pre = work.pop()
            c.decisions = list(pre); c.pos = 0; c.path = []; c.new = []; c.sideconds = []
            c.paths += 1
            if c.paths > c.max_paths:
                raise Unsupported("too many paths")
            try:
                res = fn()
            except PathAbort:
                work.extend(c.new)
                continue
            except RecursionError:
                raise
            except Unsupported:
                raise
            except Exception as ex:          # the code raised on this path
                res = Raised(ex)
            pc = list(c.path); sc = list(c.sideconds)
            work.extend(c.new)
            # decisions after prefix are also recorded in c.new prefixes
            c.exploring = False
            yield pc, res, sc
            c.exploring = True
    finally:
        if outer[5]: c.assume, c.decisions, c.pos, c.path, c.new, c.exploring, c.sideconds = outer
        else: c.exploring = False; c.path = []

class Raised:
    def __init__(self, ex): self.ex = ex
    def __repr__(self): return f"Raised({type(self.ex).__name__}: {self.ex})"

# ---------------------------------------------------------------- booleans

class BoolT:
    __slots__ = ("e",)
    __array_priority__ = 50
    def __init__(self, e): self.e = e
    def __bool__(self): return CTX.branch(self.e)
    def __and__(self, o): return land(self, o)
    __rand__ = __and__
    def __or__(self, o): return lor(self, o)
    __ror__ = __or__
    def __xor__(self, o): return mkbool(z3.Xor(self.e, bexpr(o)))
    __rxor__ = __xor__
    def __invert__(self): return lnot(self)
    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_, BoolT)): return mkbool(self.e == bexpr(o))
        return num(self) == o
    def __ne__(self, o): return lnot(self == o)
    __hash__ = object.__hash__
    def __add__(self, o): return num(self) + o
    __radd__ = __add__
    def __mul__(self, o): return land(self, o) if isinstance(o, (bool, _np.bool_, BoolT)) else num(self) * o
    __rmul__ = __mul__
    def __sub__(self, o): return num(self) - o
    def __rsub__(self, o): return o - num(self)
    def __lt__(self, o): return num(self) < o
    def __le__(self, o): return num(self) <= o
    def __gt__(self, o): return num(self) > o
    def __ge__(self, o): return num(self) >= o
    def __repr__(self): return f"B({self.e})"

def num(b):
    if isinstance(b, BoolT): return FInt({1: b.e, 0: z3.Not(b.e)})
    if isinstance(b, (bool, _np.bool_)): return int(b)
    return b

def bexpr(x):
    if isinstance(x, BoolT): return x.e
    if isinstance(x, (bool, _np.bool_)): return z3.BoolVal(bool(x))
    if isinstance(x, z3.BoolRef): return x
    if isinstance(x, (int, float, Fraction, _np.integer, _np.floating)): return z3.BoolVal(bool(x))
    if isinstance(x, (FInt, RealT)) or getattr(x, "_is_sym", False):
        r = (x != 0)
        return bexpr(r)
    raise Unsupported(f"not a boolean: {type(x)}")

def mkbool(e):
    if isinstance(e, bool): return e
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return BoolT(e)

def land(a, b):
    if isinstance(a, (bool, _np.bool_)): return b if a else False
    if isinstance(b, (bool, _np.bool_)): return a if b else False
    return mkbool(z3.And(bexpr(a), bexpr(b)))

def lor(a, b):
    if isinstance(a, (bool, _np.bool_)): return True if a else b
    if isinstance(b, (bool, _np.bool_)): return True if b else a
    return mkbool(z3.Or(bexpr(a), bexpr(b)))

def lnot(a):
    if isinstance(a, (bool, _np.bool_)): return not a
    e = bexpr(a)
    if z3.is_not(e): return mkbool(e.arg(0))
    return mkbool(z3.Not(e))

# ---------------------------------------------------------------- reals

class RealT:
    __slots__ = ("e",)
    __array_priority__ = 50
    def __init__(self, e): self.e = e
    @staticmethod
    def var(name): return RealT(z3.Real(name))
    def _bin(self, o, f):
        if isinstance(o, (RealT, FInt, BoolT)) or is_num(o):
            return RealT(f(self.e, zval(o)))
        return NotImplemented
    def __add__(self, o):
        if _isinf(o): return o
        if is_num(o) and o == 0: return self
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o):
        if _isinf(o): return -o
        if is_num(o) and o == 0: return self
        return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o):
        if _isinf(o): return o
        return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o):
        if is_num(o):
            if o == 0: return 0
            if o == 1: return self
        if isinstance(o, FInt): return o * self
        if isinstance(o, BoolT): return ite(o, self, 0)
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o):
        if is_num(o): return RealT(self.e * zval(1 / to_frac(o)))
        return self._bin(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b / a)
    def __neg__(self): return RealT(-self.e)
    def __pos__(self): return self
    def __abs__(self): return ite(self < 0, -self, self)
    def __pow__(self, n):
        if is_num(n) and int(n) == n and n >= 0:
            r = 1
            for _ in range(int(n)): r = self * r
            return r
        raise Unsupported("power")
    def _cmp(self, o, f, inf_pos, inf_neg):
        if _isinf(o): return inf_pos if o > 0 else inf_neg
        if isinstance(o, (RealT, FInt, BoolT)) or is_num(o):
            if isinstance(o, RealT) and o.e.eq(self.e):
                return f(0, 0)
            return mkbool(f(self.e, zval(o)))
        return NotImplemented
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, True, False)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, True, False)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, False, True)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, False, True)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b, False, False)
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)
    __hash__ = object.__hash__
    def __bool__(self): return bool(self != 0)
    def __float__(self): raise Unsupported("float() of a symbolic real")
    def __int__(self): raise Unsupported("int() of a symbolic real")
    def __index__(self): raise Unsupported("symbolic real used as an index")
    def trunc(self):
        return RealT(z3.If(self.e >= 0, z3.ToReal(z3.ToInt(self.e)), -z3.ToReal(z3.ToInt(-self.e))))
    def floor(self): return RealT(z3.ToReal(z3.ToInt(self.e)))
    def ceil(self): return RealT(-z3.ToReal(z3.ToInt(-self.e)))
    def exp(self): return uf1("exp", self) if DOMAIN.get("plainexp") else LogP(self)
    def log(self): return uf1("log", self)
    def copy(self): return self
    @property
    def T(self): return self
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    def item(self): return self
    def __repr__(self): return f"R({self.e})"

def uf1(name, x):
    f = z3.Function("uf_" + name, z3.RealSort(), z3.RealSort())
    return RealT(f(zval(x)))

# ---------------------------------------------------------------- finite-domain integers

class FInt:
    """Integer that takes value v under guard g, for (v, g) in d.items(); guards are exclusive and exhaustive."""
    __slots__ = ("d",)
    __array_priority__ = 50
    def __init__(self, d): self.d = d
    @staticmethod
    def var(name, lo, hi):
        """fresh integer in lo..hi-1; returns (FInt, constraint)."""
        if hi - lo == 1: return lo, z3.BoolVal(True)
        if hi - lo == 2:
            b = z3.Bool(name)
            return FInt({lo: z3.Not(b), lo + 1: b}), z3.BoolVal(True)
        v = z3.Int(name)
        return FInt({i: v == i for i in range(lo, hi)}), z3.And(v >= lo, v < hi)
    def as_real(self):
        it = list(self.d.items())
        e = z3.RealVal(it[-1][0])
        for v, g in reversed(it[:-1]): e = z3.If(g, z3.RealVal(v), e)
        return RealT(e)
    def map(self, f):
        out = {}
        for v, g in self.d.items():
            w = f(v)
            out[w] = z3.Or(out[w], g) if w in out else g
        if len(out) == 1: return next(iter(out))
        return FInt(out)
    def _bin(self, o, f):
        if isinstance(o, BoolT): o = num(o)
        if isinstance(o, (int, _np.integer)): o = int(o); return self.map(lambda v: f(v, o))
        if isinstance(o, FInt):
            out = {}
            for v, g in self.d.items():
                for w, h in o.d.items():
                    r = f(v, w); gg = z3.And(g, h)
                    out[r] = z3.Or(out[r], gg) if r in out else gg
            if len(out) == 1: return next(iter(out))
            return FInt(out)
        if DOMAIN["rat"] and not isinstance(o, RealT): return f(self.__index__(), o)
        if is_num(o) and not _isinf(o) and float(o) == int(o): return f(self.as_real(), to_frac(o))
        if is_num(o) or isinstance(o, RealT): return f(self.as_real(), o)
        return NotImplemented
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o):
        if isinstance(o, RealT): return select_fint(self, lambda v: o * v)
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __floordiv__(self, o): return self._bin(o, lambda a, b: a // b)
    def __rfloordiv__(self, o): return self._bin(o, lambda a, b: b // a)
    def __mod__(self, o): return self._bin(o, lambda a, b: a % b)
    def __rmod__(self, o): return self._bin(o, lambda a, b: b % a)
    def __truediv__(self, o): return Fraction(self.__index__()) / o if DOMAIN["rat"] else self.as_real() / o
    def __rtruediv__(self, o): return o / Fraction(self.__index__()) if DOMAIN["rat"] else o / self.as_real()
    def __pow__(self, o): return self._bin(o, lambda a, b: a ** b)
    def __and__(self, o): return self._bin(o, lambda a, b: a & b)
    __rand__ = __and__
    def __or__(self, o): return self._bin(o, lambda a, b: a | b)
    __ror__ = __or__
    def __xor__(self, o): return self._bin(o, lambda a, b: a ^ b)
    __rxor__ = __xor__
    def __neg__(self): return self.map(lambda v: -v)
    def __pos__(self): return self
    def __abs__(self): return self.map(abs)
    def _cmp(self, o, f):
        if isinstance(o, BoolT): o = num(o)
        if is_num(o):
            t = [g for v, g in self.d.items() if f(v, o)]
            if not t: return False
            if len(t) == len(self.d): return True
            return mkbool(z3.Or(*t) if len(t) > 1 else t[0])
        if isinstance(o, FInt):
            t = [z3.And(g, h) for v, g in self.d.items() for w, h in o.d.items() if f(v, w)]
            if not t: return False
            if len(t) == len(self.d) * len(o.d): return True
            return mkbool(z3.Or(*t))
        if isinstance(o, RealT): return f(self.as_real(), o)
        return NotImplemented
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)
    __hash__ = object.__hash__
    def __bool__(self): return bool(self != 0)
    def __index__(self):
        # used as a plain index by code outside the symbolic layer (list indexing, range(), ...): fork on the value
        items = list(self.d.items())
        for v, g in items[:-1]:
            if CTX.branch(g): return v
        return items[-1][0]
    __int__ = __index__
    def copy(self): return self
    def item(self): return self
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    def __repr__(self): return f"I({list(self.d)})"

def select_fint(i, f):
    """value f(v) where i == v."""
    it = list(i.d.items())
    r = f(it[-1][0])
    for v, g in reversed(it[:-1]): r = ite(mkbool(g), f(v), r)
    return r

# ---------------------------------------------------------------- positive reals by logarithm

class LogP:
    """positive real exp(l)."""
    __slots__ = ("l",)
    __array_priority__ = 50
    def __init__(self, l): self.l = l
    def _o(self, o):
        if isinstance(o, LogP): return o.l
        if is_num(o):
            if o == 1: return 0
            if o > 0: return RealT(z3.Real("log_" + str(to_frac(o)).replace("/", "_over_")))
            return None
        return NotImplemented
    def __mul__(self, o):
        if is_num(o) and o == 0: return 0
        l = self._o(o)
        if l is NotImplemented or l is None: raise Unsupported("LogP * " + type(o).__name__)
        return LogP(self.l + l)
    __rmul__ = __mul__
    def __truediv__(self, o):
        l = self._o(o)
        if l is NotImplemented or l is None: raise Unsupported("LogP / " + type(o).__name__)
        return LogP(self.l - l)
    def __rtruediv__(self, o):
        l = self._o(o)
        if l is NotImplemented or l is None: raise Unsupported("x / LogP")
        return LogP(l - self.l)
    def _cmp(self, o, f, neg):
        l = self._o(o)
        if l is None: return neg
        if l is NotImplemented: return NotImplemented
        return f(self.l, l)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, False)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, False)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, True)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, True)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b, False)
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)
    __hash__ = object.__hash__
    def __pow__(self, n):
        if is_num(n): return LogP(self.l * to_frac(n))
        raise Unsupported("LogP **")
    def sqrt(self): return LogP(self.l / 2)
    def log(self): return self.l
    def copy(self): return self
    def __add__(self, o):
        if is_num(o) and o == 0: return self
        raise Unsupported("sum of probabilities in log form")
    __radd__ = __add__
    def __repr__(self): return f"LogP({self.l})"

# ---------------------------------------------------------------- generic operations

DOMAIN = {"rat": False}      # rational functions (branching) instead of z3 reals (merging)
def is_sym(x):
    return isinstance(x, (RealT, FInt, BoolT, LogP)) or getattr(x, "_is_sym", False)

def ite(c, a, b):
    if isinstance(c, (bool, _np.bool_)): return a if c else b
    if isinstance(c, int): return a if c else b
    if isinstance(c, FInt) : c = (c != 0)
    if isinstance(c, bool): return a if c else b
    if a is b: return a
    if a is None and b is None: return None
    ce = c.e
    ta, tb = type(a), type(b)
    if isinstance(a, (bool, _np.bool_, BoolT)) and isinstance(b, (bool, _np.bool_, BoolT)):
        if not isinstance(a, BoolT) and not isinstance(b, BoolT) and bool(a) == bool(b): return a
        return mkbool(z3.simplify(z3.If(ce, bexpr(a), bexpr(b))))
    if isinstance(a, (BoolT, bool)): a = num(a)
    if isinstance(b, (BoolT, bool)): b = num(b)
    if isinstance(a, (int, _np.integer, FInt)) and isinstance(b, (int, _np.integer, FInt)):
        da = a.d if isinstance(a, FInt) else {int(a): None}
        db = b.d if isinstance(b, FInt) else {int(b): None}
        if len(da) == 1 and len(db) == 1 and list(da) == list(db): return int(next(iter(da)))
        nce = z3.Not(ce)
        out = {}
        for v, g in da.items():
            out[v] = ce if g is None else z3.And(ce, g)
        for v, g in db.items():
            gg = nce if g is None else z3.And(nce, g)
            out[v] = z3.Or(out[v], gg) if v in out else gg
        return FInt(out)
    if isinstance(a, LogP) or isinstance(b, LogP):
        la = a.l if isinstance(a, LogP) else LogP(0)._o(a)
        lb = b.l if isinstance(b, LogP) else LogP(0)._o(b)
        if la is None or lb is None: raise CannotMerge("zero probability")
        return LogP(ite(c, la, lb))
    if (is_num(a) or isinstance(a, (RealT, FInt))) and (is_num(b) or isinstance(b, (RealT, FInt))):
        if is_num(a) and is_num(b) and a == b: return a
        if DOMAIN["rat"] and is_num(a) and is_num(b): return a if CTX.branch(ce) else b
        if _isinf(a) or _isinf(b): raise CannotMerge("infinite value")
        za, zb = zval(a), zval(b)
        if za.eq(zb): return a
        return RealT(z3.If(ce, za, zb))
    if isinstance(a, (list, tuple)) and ta is tb and len(a) == len(b):
        return ta(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, _np.ndarray) and isinstance(b, _np.ndarray) and a.shape == b.shape:
        out = _np.empty(a.shape, dtype=object)
        fa, fb = a.reshape(-1), b.reshape(-1)
        fo = out.reshape(-1)
        for i in range(fo.shape[0]): fo[i] = ite(c, fa[i], fb[i])
        out = fo.reshape(a.shape)
        return out.view(type(a)) if type(a) is not _np.ndarray else out
    h = getattr(ta, "_ite", None) or getattr(tb, "_ite", None)
    if h is not None:
        return h(c, a, b)
    raise CannotMerge(f"{ta} / {tb}")

def smin(a, b):
    c = (a <= b)
    return ite(c, a, b)

def smax(a, b):
    c = (a >= b)
    return ite(c, a, b)

def sargmin(vals):
    """first minimum (NumPy semantics)."""
    best = vals[0]; idx = 0
    for i in range(1, len(vals)):
        c = vals[i] < best
        best = ite(c, vals[i], best)
        idx = ite(c, i, idx)
    return idx

def sargmax(vals):
    best = vals[0]; idx = 0
    for i in range(1, len(vals)):
        c = vals[i] > best
        best = ite(c, vals[i], best)
        idx = ite(c, i, idx)
    return idx
