"""Exact rational functions (multivariate, over Q) used as symbolic scalars for linear-algebra code.

A Rat is num / (q * prod factor_i^e_i): num an integer polynomial, q a positive integer, factors from a global
gcd-free registry.  Monomials are packed integers (10 bits per variable)."""
import math, random
from fractions import Fraction
import numpy as _np
import z3
from . import zsym
from .zsym import Unsupported, to_frac, is_num, BoolT, mkbool

BITS = 10
MASK = (1 << BITS) - 1
VARS = []            # names
_VIDX = {}
ZV = []              # z3 constants
FACTORS = []         # factor polys
_FKEY = {}
_FROOT = []          # (prime, point) with factor == 0
P = 65521
_rng = random.Random(12345)
MAXTERMS = 400000

DOMAIN = []          # z3 constraints describing the inputs the property covers (used when a task explores paths)
def positive_semidefinite(A, strict=False):
    """register that the symmetric matrix A of rational functions is positive (semi)definite"""
    import itertools
    n = A.shape[0]
    def det(ix):
        if len(ix) == 1: return A[ix[0], ix[0]]
        def rec(rows, cols):
            if not rows: return Fraction(1)
            r = Fraction(0)
            for j, c in enumerate(cols):
                t = A[rows[0], c] * rec(rows[1:], cols[:j] + cols[j + 1:])
                r = r + t if j % 2 == 0 else r - t
            return r
        return rec(tuple(ix), tuple(ix))
    sets = [tuple(range(k + 1)) for k in range(n)] if strict else [s for k in range(1, n + 1) for s in itertools.combinations(range(n), k)]
    for s in sets:
        m = det(s)
        if not isinstance(m, Rat) or m.is_const(): continue
        p = to_z3(m.sign_poly())
        DOMAIN.append(p > 0 if strict else p >= 0)

def reset():
    DOMAIN.clear()
    VARS.clear(); _VIDX.clear(); ZV.clear(); FACTORS.clear(); _FKEY.clear(); _FROOT.clear(); _PW.clear()
    _UF.clear(); UF_ARGS.clear(); UFN_ARGS.clear(); SQUARES.clear()

def var_index(name):
    i = _VIDX.get(name)
    if i is None:
        i = len(VARS); VARS.append(name); _VIDX[name] = i; ZV.append(z3.Real(name))
    return i

def var(name):
    return Rat({1 << (BITS * var_index(name)): 1}, {}, 1)

# ---- polynomial helpers (dict mono -> int)

def padd(a, b):
    if len(a) < len(b): a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v: r[m] = v
        else: del r[m]
    return r

def psub(a, b):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) - c
        if v: r[m] = v
        else: del r[m]
    return r

def pscale(a, k):
    if k == 1: return a
    if k == 0: return {}
    return {m: c * k for m, c in a.items()}

TRUNC = None         # (bit position of a variable, highest power kept): arithmetic modulo higher powers of that variable
def set_trunc(v=None, k=0):
    global TRUNC
    TRUNC = None if v is None else (BITS * v_index(v), k)

def _pmul_trunc(a, b):
    sh, K = TRUNC
    A = {}
    for m, c in a.items(): A.setdefault((m >> sh) & MASK, []).append((m, c))
    B = {}
    for m, c in b.items(): B.setdefault((m >> sh) & MASK, []).append((m, c))
    r = {}
    get = r.get
    for da, ta in A.items():
        for db, tb in B.items():
            if da + db > K: continue
            for m, c in ta:
                for k, v in tb:
                    s = m + k
                    r[s] = get(s, 0) + c * v
    r = {m: c for m, c in r.items() if c}
    if len(r) > MAXTERMS: raise Unsupported("polynomial too large")
    return r

def pmul(a, b):
    if not a or not b: return {}
    if TRUNC is not None: return _pmul_trunc(a, b)
    if len(a) > len(b): a, b = b, a
    if len(a) == 1:
        (m, c), = a.items()
        if c == 1: return {m + k: v for k, v in b.items()}
        return {m + k: v * c for k, v in b.items()}
    r = {}
    get = r.get
    bi = list(b.items())
    for m, c in a.items():
        for k, v in bi:
            s = m + k
            r[s] = get(s, 0) + c * v
    r = {m: c for m, c in r.items() if c}
    if len(r) > MAXTERMS: raise Unsupported("polynomial too large")
    return r

def ppow(a, n):
    r = {0: 1}
    for _ in range(n): r = pmul(r, a)
    return r

def pcontent(a):
    g = 0
    for c in a.values():
        g = math.gcd(g, c)
        if g == 1: return 1
    return g

def pdiv_exact(a, f):
    """quotient if f divides a exactly (over Z, f primitive), else None."""
    if not a: return {}
    lf = max(f); cf = f[lf]
    rest = [(m, c) for m, c in f.items() if m != lf]
    import heapq
    a = dict(a)
    heap = [-m for m in a]
    heapq.heapify(heap)
    q = {}
    while heap:
        m = -heapq.heappop(heap)
        c = a.pop(m, 0)
        if not c: continue
        d = m - lf
        if d < 0 or not _divides(lf, m): return None
        if c % cf: return None
        k = c // cf
        q[d] = k
        for mm, cc in rest:
            t = mm + d
            v = a.get(t)
            if v is None:
                a[t] = -k * cc; heapq.heappush(heap, -t)
            else:
                v -= k * cc
                if v: a[t] = v
                else: a[t] = 0
        if len(q) > MAXTERMS: return None
    return q

def _divides(a, b):
    while a:
        if (a & MASK) > (b & MASK): return False
        a >>= BITS; b >>= BITS
    return True

_PW = {}
def _eval_mod(a, point):
    s = 0
    cache = {}
    for m, c in a.items():
        t = c % P
        i = 0
        k = m
        while k:
            e = k & MASK
            if e:
                key = (i, e)
                v = cache.get(key)
                if v is None:
                    v = pow(point[i] if i < len(point) else _extra(i), e, P); cache[key] = v
                t = t * v % P
            k >>= BITS; i += 1
        s += t
    return s % P

_EXTRA = {}
def _extra(i):
    v = _EXTRA.get(i)
    if v is None:
        v = random.Random(991 * i + 7).randrange(1, P); _EXTRA[i] = v
    return v

def _find_root(f):
    """a point mod P (list of values) where f vanishes."""
    used = set()
    for m in f:
        i = 0
        while m:
            if m & MASK: used.add(i)
            m >>= BITS; i += 1
    used = sorted(used)
    n = used[-1] + 1
    for attempt in range(60):
        pt = [_rng.randrange(1, P) for _ in range(n)]
        v = _rng.choice(used)
        coef = {}
        for m, c in f.items():
            e = (m >> (BITS * v)) & MASK
            mm = m - (e << (BITS * v))
            coef[e] = (coef.get(e, 0) + _eval_mod({mm: c}, pt)) % P
        x = _np.arange(P, dtype=_np.int64)
        acc = _np.zeros(P, dtype=_np.int64)
        for e in range(max(coef), -1, -1):
            acc = (acc * x + coef.get(e, 0)) % P
        z = _np.nonzero(acc == 0)[0]
        z = z[z > 0]
        if len(z) and len(z) < P // 2:
            pt[v] = int(z[_rng.randrange(len(z))])
            return pt
    return None

def _maybe_divides(fid, a):
    pt = _FROOT[fid]
    if pt is None: return True
    return _eval_mod(a, pt) == 0

def factorise(p):
    """p (nonempty poly) -> (const int, {fid: e}) with p = const * prod f^e over the registry (registering if needed)."""
    out = {}
    g = pcontent(p)
    lead = p[max(p)]
    if lead < 0: g = -g
    if g != 1: p = {m: c // g for m, c in p.items()}
    # monomial content
    if len(p) == 1:
        (m, c), = p.items()
        assert c == 1
        i = 0
        while m:
            e = m & MASK
            if e: out[_register({1 << (BITS * i): 1})] = e
            m >>= BITS; i += 1
        return g, out
    mins = None
    for m in p:
        if mins is None: mins = m
        else:
            r = 0; i = 0; a = mins; b = m
            while a and b:
                r |= min(a & MASK, b & MASK) << (BITS * i)
                a >>= BITS; b >>= BITS; i += 1
            mins = r
        if not mins: break
    if mins:
        p = {m - mins: c for m, c in p.items()}
        m = mins; i = 0
        while m:
            e = m & MASK
            if e: out[_register({1 << (BITS * i): 1})] = e
            m >>= BITS; i += 1
    k = frozenset(p.items())
    if k in _FKEY:
        out[_FKEY[k]] = out.get(_FKEY[k], 0) + 1
        return g, out
    if len(p) > 1:
        for fid in range(len(FACTORS)):
            f = FACTORS[fid]
            if len(f) == 1: continue
            if len(p) < 2: break
            while max(f) <= max(p) and _maybe_divides(fid, p):
                q = pdiv_exact(p, f)
                if q is None: break
                out[fid] = out.get(fid, 0) + 1
                p = q
                if len(p) == 1: break
    if p == {0: 1}: return g, out
    if p == {0: -1}: return -g, out
    if len(p) == 1:
        g2, o2 = factorise(p)
        for f, e in o2.items(): out[f] = out.get(f, 0) + e
        return g * g2, out
    if p[max(p)] < 0:
        p = {m: -c for m, c in p.items()}; g = -g
    fid = _register(p)
    out[fid] = out.get(fid, 0) + 1
    return g, out

def _register(p):
    k = frozenset(p.items())
    i = _FKEY.get(k)
    if i is None:
        i = len(FACTORS); FACTORS.append(p); _FKEY[k] = i
        _FROOT.append(_find_root(p) if len(p) > 1 else None)
    return i

def expand_factors(d):
    r = {0: 1}
    for fid, e in d.items():
        for _ in range(e): r = pmul(r, FACTORS[fid])
    return r

# variables with v^2 known: index -> Rat (sqrt generators etc.); handled by class Ext
SQUARES = {}

class Rat:
    __slots__ = ("num", "den", "q")
    _is_sym = True

    def __init__(self, num, den, q):
        self.num = num; self.den = den; self.q = q

    @staticmethod
    def const(x):
        f = to_frac(x)
        return Rat({0: f.numerator} if f.numerator else {}, {}, f.denominator)

    def is_const(self):
        return not self.den and (not self.num or (len(self.num) == 1 and 0 in self.num))

    def value(self):
        return Fraction(self.num.get(0, 0), self.q)

    def _norm(self):
        if not self.num:
            return Rat({}, {}, 1)
        if self.q != 1:
            g = self.q
            for c in self.num.values():
                g = math.gcd(g, c)
                if g == 1: break
            if g != 1:
                return Rat({m: c // g for m, c in self.num.items()}, self.den, self.q // g)
        return self

    def _cancel(self):
        if not self.num: return Rat({}, {}, 1)
        if self.den:
            num = self.num; den = None
            for fid in list(self.den):
                f = FACTORS[fid]
                if len(f) == 1:      # a variable
                    (m, _), = f.items()
                    sh = m.bit_length() - 1
                    e = self.den[fid]
                    mn = min((k >> sh) & MASK for k in num)
                    k = min(e, mn)
                    if k:
                        num = {mm - (k << sh): c for mm, c in num.items()}
                        if den is None: den = dict(self.den)
                        den[fid] -= k
                        if not den[fid]: del den[fid]
                    continue
                while (den or self.den).get(fid, 0) and _maybe_divides(fid, num):
                    qq = pdiv_exact(num, f)
                    if qq is None: break
                    num = qq
                    if den is None: den = dict(self.den)
                    den[fid] -= 1
                    if not den[fid]:
                        del den[fid]
                        break
            if den is not None:
                return Rat(num, den, self.q)._norm()
        return self._norm()

    # -- arithmetic
    @staticmethod
    def lift(o):
        if isinstance(o, Rat): return o
        if isinstance(o, bool): o = int(o)
        if is_num(o): return Rat.const(o)
        return None

    def __add__(self, o):
        if isinstance(o, (int, float)) and o == 0: return self
        o = Rat.lift(o)
        if o is None: return NotImplemented
        if not o.num: return self
        if not self.num: return o
        if self.den == o.den:
            if self.q == o.q:
                r = Rat(padd(self.num, o.num), self.den, self.q)
            else:
                l = self.q * o.q // math.gcd(self.q, o.q)
                r = Rat(padd(pscale(self.num, l // self.q), pscale(o.num, l // o.q)), self.den, l)
            if not r.den: return r._norm()
            return r._cancel()
        l = dict(self.den)
        for f, e in o.den.items():
            if l.get(f, 0) < e: l[f] = e
        a = self.num; b = o.num
        ma = {f: e - self.den.get(f, 0) for f, e in l.items() if e > self.den.get(f, 0)}
        mb = {f: e - o.den.get(f, 0) for f, e in l.items() if e > o.den.get(f, 0)}
        for f, e in ma.items():
            for _ in range(e): a = pmul(a, FACTORS[f])
        for f, e in mb.items():
            for _ in range(e): b = pmul(b, FACTORS[f])
        lq = self.q * o.q // math.gcd(self.q, o.q)
        r = Rat(padd(pscale(a, lq // self.q), pscale(b, lq // o.q)), l, lq)
        # only factors present in both denominators can cancel
        return r._cancel()
    __radd__ = __add__

    def __neg__(self): return Rat({m: -c for m, c in self.num.items()}, self.den, self.q)
    def __pos__(self): return self

    def __sub__(self, o):
        o = Rat.lift(o)
        if o is None: return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = Rat.lift(o)
        if o is None: return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        if isinstance(o, (int, _np.integer)) and not isinstance(o, bool):
            o = int(o)
            if o == 0: return Rat({}, {}, 1)
            if o == 1: return self
            return Rat({m: c * o for m, c in self.num.items()}, self.den, self.q)._norm()
        o = Rat.lift(o)
        if o is None: return NotImplemented
        if not self.num or not o.num: return Rat({}, {}, 1)
        if not self.den and not o.den:
            return Rat(pmul(self.num, o.num), {}, self.q * o.q)._norm()
        # cross cancel
        a = Rat(self.num, dict((f, e) for f, e in o.den.items()), 1)._cancel() if o.den else Rat(self.num, {}, 1)
        b = Rat(o.num, dict((f, e) for f, e in self.den.items()), 1)._cancel() if self.den else Rat(o.num, {}, 1)
        d = dict(a.den)
        for f, e in b.den.items(): d[f] = d.get(f, 0) + e
        return Rat(pmul(a.num, b.num), d, self.q * o.q)._norm()
    __rmul__ = __mul__

    def inv(self):
        if not self.num: raise ZeroDivisionError("division by zero")
        if TRUNC is not None:
            sh, K = TRUNC
            p0 = {m: c for m, c in self.num.items() if not (m >> sh) & MASK}
            if not p0: raise Unsupported("division by a quantity that vanishes with the step length")
            if len(p0) < len(self.num):
                i0 = Rat(p0, {}, 1).inv()
                x = -(Rat({m: c for m, c in self.num.items() if (m >> sh) & MASK}, {}, 1) * i0)
                s = Rat.const(1)
                for _ in range(K): s = s * x + 1
                return Rat(expand_factors(self.den), {}, 1) * self.q * (i0 * s)
        g, fs = factorise(self.num)
        n = expand_factors(self.den)
        if g < 0:
            g = -g; n = pscale(n, -1)
        return Rat(pscale(n, self.q), fs, g)._cancel()

    def __truediv__(self, o):
        o = Rat.lift(o)
        if o is None: return NotImplemented
        if o.is_const():
            v = o.value()
            if v == 0: raise ZeroDivisionError
            return self * Rat.const(1 / v)
        if TRUNC is not None and not o.den and len(o.num) == 1 and not self.den and len(self.num) == 1:
            (m, c), = self.num.items(); (k, d), = o.num.items()
            if _divides(k, m): return Rat({m - k: 1}, {}, 1) * Rat.const(Fraction(c * o.q, d * self.q))
        return self * o.inv()

    def __rtruediv__(self, o):
        o = Rat.lift(o)
        if o is None: return NotImplemented
        return o / self

    def __pow__(self, n):
        if isinstance(n, Rat) and n.is_const(): n = n.value()
        if is_num(n) and int(n) == n:
            n = int(n)
            if n < 0: return (self ** (-n)).inv()
            r = Rat.const(1)
            b = self
            for _ in range(n): r = r * b
            return r
        if is_num(n) and float(n) == 0.5: return self.sqrt()
        raise Unsupported("Rat ** non-integer")

    # -- relations
    def sign_poly(self):
        """polynomial with the same sign as self where defined."""
        p = self.num
        for f, e in self.den.items():
            if e % 2: p = pmul(p, FACTORS[f])
        return p

    def _cmp(self, o, op):
        if zsym._isinf(o):
            return op(0, 1) if o > 0 else op(0, -1)
        o = Rat.lift(o)
        if o is None: return NotImplemented
        t = tolerance(self, o)
        if t is not None: x, tiny = t; return ideal(x, tiny, op, Rat._cmp)
        d = self - o
        if d.is_const(): return op(d.value(), 0)
        sp = d.sign_poly()
        e = op(to_z3(sp), z3.RealVal(0))
        RELS[e.get_id()] = (e, sp, d.num, (op(1, 0), op(0, 0)))
        return mkbool(e)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o):
        if zsym._isinf(o): return False
        o = Rat.lift(o)
        if o is None: return NotImplemented
        d = self - o
        if d.is_const(): return d.value() == 0
        e = to_z3(d.num) == 0
        EQS[e.get_id()] = (e, d.num)
        return mkbool(e)
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else zsym.lnot(r)
    __hash__ = object.__hash__
    def __bool__(self):
        if self.is_const(): return bool(self.num)
        return bool(self != 0)
    def __abs__(self):
        if self.is_const(): return Rat.const(abs(self.value()))
        return self if bool(self >= 0) else -self
    def __float__(self):
        if self.is_const(): return float(self.value())
        raise Unsupported("float() of a symbolic value")
    def __int__(self):
        if self.is_const(): return int(self.value())
        raise Unsupported("int() of a symbolic value")
    def __index__(self):
        if self.is_const() and self.value().denominator == 1: return int(self.value())
        raise Unsupported("symbolic value used as an index")
    def __round__(self, n=None):
        if not self.is_const(): raise Unsupported("rounding of a symbolic value")
        return round(self.value()) if n is None else Rat.const(round(self.value(), n))
    def __floor__(self): return math.floor(self.value()) if self.is_const() else self.floor()
    def __ceil__(self): return math.ceil(self.value()) if self.is_const() else self.ceil()
    def __trunc__(self): return math.trunc(self.value()) if self.is_const() else self.trunc()
    def rint(self): return Rat.const(self.__round__())
    def trunc(self):
        if self.is_const(): return Rat.const(math.trunc(self.value()))
        return fresh("trunc")
    def floor(self):
        if self.is_const(): return Rat.const(math.floor(self.value()))
        return fresh("floor")
    def ceil(self):
        if self.is_const(): return Rat.const(math.ceil(self.value()))
        return fresh("ceil")
    def sqrt(self):
        return ext_sqrt(self)
    def exp(self): return uf("exp", self)
    def log(self): return uf("log", self)
    def sin(self): return uf("sin", self)
    def cos(self): return uf("cos", self)
    def tan(self): return self.sin() / self.cos()
    def arctan(self): return uf("arctan", self)
    def tanh(self): return uf("tanh", self)
    def copy(self): return self
    def item(self): return self
    def conjugate(self): return self
    @property
    def real(self): return self
    @property
    def T(self): return self
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    def __repr__(self):
        return rat_str(self)

    def _ite(c, a, b):
        raise zsym.CannotMerge("rational function under a symbolic condition")

    # -- evaluation / substitution
    def eval(self, env):
        """exact value at env: name -> Fraction."""
        n = peval(self.num, env)
        d = Fraction(self.q)
        for f, e in self.den.items(): d *= peval(FACTORS[f], env) ** e
        return n / d

Rat._ite = staticmethod(lambda c, a, b: _rat_ite(c, a, b))

ITE_MODE = {"on": False}
ITE_DEFS = []     # (var name, cond z3, a, b)

def _rat_ite(c, a, b):
    a = Rat.lift(a) if not isinstance(a, Ext) else a
    b = Rat.lift(b) if not isinstance(b, Ext) else b
    if a is None or b is None: raise zsym.CannotMerge("rat ite")
    d = a - b
    if isinstance(d, Rat) and not d.num: return a
    if not ITE_MODE["on"]:
        if zsym.is_num(d): raise zsym.CannotMerge("rational function under a symbolic condition")
        if isinstance(d, Rat):
            q = equations([c.e])
            if q and not eliminate(d.num, q)[0]: return b             # the branches agree where the condition holds
            q = equations([z3.Not(c.e)])
            if q and not eliminate(d.num, q)[0]: return a
        return a if zsym.CTX.branch(c.e) else b
    v = fresh("ite")
    ITE_DEFS.append((v, c.e, a, b))
    return v

RELS = {}            # z3 inequality -> (inequality, sign polynomial, numerator, (holds for positive, holds for zero))
EQS = {}             # z3 equation -> (equation, polynomial)
def equations(conds):
    """polynomials that vanish on a path"""
    out = []; ge = set()
    def go(e, pos):
        k = EQS.get(e.get_id())
        if k is not None:
            if pos: out.append(k[1])
            return
        k = RELS.get(e.get_id())
        if k is not None:
            _, sp, num, (up, zero) = k
            if not pos: up, zero = not up, not zero
            if zero:
                key, neg = frozenset(sp.items()), frozenset((m, -c) for m, c in sp.items())
                ge.add(key if up else neg)
                if (neg if up else key) in ge: out.append(num)
            return
        if z3.is_not(e): go(e.arg(0), not pos)
        elif (z3.is_and(e) and pos) or (z3.is_or(e) and not pos):
            for x in e.children(): go(x, pos)
    for e in conds: go(e, True)
    return out

def eliminate(d, eqs):
    """polynomial d modulo the equations, solved one after the other for a variable they are linear in: (remainder, divisors)"""
    divs = []
    eqs = list(eqs)
    def parts(p, i):
        sh = BITS * i; o = {}
        for m, c in p.items(): o.setdefault((m >> sh) & MASK, {})[m & ~(MASK << sh)] = c
        return o
    while eqs:
        p = eqs.pop(0)
        if not p: continue
        best = None
        for i in pvars(p):
            q = parts(p, i)
            if max(q) == 1:
                c = (len(q[1]), len(p))
                if best is None or c < best[0]: best = (c, i, q)
        if best is None: continue
        _, i, q = best
        num = {m: -c for m, c in q.get(0, {}).items()}; den = q[1]
        def sub(a):
            t = parts(a, i); K = max(t) if t else 0
            if K == 0: return a
            r = {}
            for k, b in t.items():
                for _ in range(k): b = pmul(b, num)
                for _ in range(K - k): b = pmul(b, den)
                r = padd(r, b)
            return r
        d = sub(d); eqs = [sub(e) for e in eqs]; divs.append(den)
    return d, divs

TINY = Fraction(1, 10 ** 6)
def tolerance(a, b):
    """(x, tiny, ...) when a constant no larger than TINY is compared with a symbolic value"""
    if isinstance(a, Rat) and a.is_const(): return None
    if isinstance(b, Rat) and b.is_const():
        v = b.value()
        if v and abs(v) <= TINY: return a, v
    return None
def ideal(x, tiny, op, cmp):
    """rounding tolerances are read as exact: x <= tiny as x <= 0, x > tiny as x > 0, x >= -tiny as x >= 0, ..."""
    up = op(1, 0)              # op is > or >=
    if tiny > 0: f = (lambda a, b: a > b) if up else (lambda a, b: a <= b)
    else: f = (lambda a, b: a >= b) if up else (lambda a, b: a < b)
    return cmp(x, 0, f)

_FRESH = [0]
def fresh(tag):
    _FRESH[0] += 1
    return var(f"_{tag}{_FRESH[0]}")

_UF = {}
def uf(name, x):
    """uninterpreted unary function of a rational function: equal arguments give the same variable."""
    if x.is_const():
        v = x.value()
        if v == 0:
            return Rat.const({"exp": 1, "log": None, "sin": 0, "cos": 1, "arctan": 0, "tanh": 0}[name])
        if name == "log" and v == 1: return Rat.const(0)
    sgn = 1
    if name in ("sin", "cos", "arctan", "tanh") and x.num and x.num[max(x.num)] < 0:
        x = -x
        if name != "cos": sgn = -1
    key = (name, frozenset(x.num.items()), frozenset(x.den.items()), x.q)
    v = _UF.get(key)
    if v is None:
        v = var(f"{name}_{len(_UF)}"); _UF[key] = v
        UF_ARGS[v_index(v)] = (name, x)
    return v if sgn == 1 else -v

def ufn(name, *xs):
    """uninterpreted function of several scalars: equal arguments give the same variable."""
    ks = []
    for x in xs:
        x = x if isinstance(x, Rat) else Rat.const(x)
        ks.append((frozenset(x.num.items()), frozenset(x.den.items()), x.q))
    key = (name, tuple(ks))
    v = _UF.get(key)
    if v is None:
        v = var(f"{name}_{len(_UF)}"); _UF[key] = v
        UFN_ARGS[v_index(v)] = (name, xs)
    return v

def coeff(r, v, k):
    """coefficient of v^k of a polynomial r"""
    if not isinstance(r, Rat): r = Rat.const(r)
    sh = BITS * v_index(v)
    if any((m >> sh) & MASK for f in r.den for m in FACTORS[f]): raise Unsupported("denominator depends on the variable")
    return Rat({m - (k << sh): c for m, c in r.num.items() if (m >> sh) & MASK == k}, r.den, r.q)._norm()

def truncate(r, v, k):
    """drop the powers of v above k"""
    if not isinstance(r, Rat): r = Rat.const(r)
    sh = BITS * v_index(v)
    return Rat({m: c for m, c in r.num.items() if (m >> sh) & MASK <= k}, r.den, r.q)._norm()

def subs(r, v, x):
    """replace the variable v (absent from denominators) by the number x"""
    if not isinstance(r, Rat): r = Rat.const(r)
    sh = BITS * v_index(v); out = {}
    if any((m >> sh) & MASK for f in r.den for m in FACTORS[f]): raise Unsupported("denominator depends on the variable")
    x = Fraction(x); D = max([(m >> sh) & MASK for m in r.num], default=0)
    for m, c in r.num.items():
        e = (m >> sh) & MASK; k = m - (e << sh)
        out[k] = out.get(k, 0) + c * x.numerator ** e * x.denominator ** (D - e)
    return Rat({m: c for m, c in out.items() if c}, r.den, r.q * x.denominator ** D)._cancel()

def integrate(r, v):
    """antiderivative with respect to v, zero at v = 0"""
    if not isinstance(r, Rat): r = Rat.const(r)
    sh = BITS * v_index(v)
    l = math.lcm(1, *[((m >> sh) & MASK) + 1 for m in r.num])
    return Rat({m + (1 << sh): c * (l // (((m >> sh) & MASK) + 1)) for m, c in r.num.items()}, r.den, r.q * l)._norm()

UF_ARGS = {}
UFN_ARGS = {}
def v_index(v):
    (m, _), = v.num.items()
    return (m.bit_length() - 1) // BITS

def peval(p, env):
    s = Fraction(0)
    cache = {}
    for m, c in p.items():
        t = Fraction(c); i = 0
        while m:
            e = m & MASK
            if e:
                v = cache.get((i, e))
                if v is None:
                    v = Fraction(env[VARS[i]]) ** e; cache[(i, e)] = v
                t *= v
            m >>= BITS; i += 1
        s += t
    return s

def psubst(p, env):
    """substitute some variables (name -> Fraction); returns (poly, denominator int)."""
    r = {}
    D = 1
    out = {}
    for m, c in p.items():
        t = Fraction(c); i = 0; k = m; keep = 0
        while k:
            e = k & MASK
            if e:
                nm = VARS[i]
                if nm in env: t *= Fraction(env[nm]) ** e
                else: keep |= e << (BITS * i)
            k >>= BITS; i += 1
        out[keep] = out.get(keep, 0) + t
    for t in out.values(): D = D * t.denominator // math.gcd(D, t.denominator)
    return {m: int(t * D) for m, t in out.items() if t}, D

def pvars(p):
    acc = 0
    for m in p: acc |= m
    r = []
    i = 0
    while acc:
        if acc & MASK: r.append(i)
        acc >>= BITS; i += 1
    return r

def to_z3(p):
    terms = []
    for m, c in sorted(p.items(), reverse=True):
        fs = []
        i = 0
        while m:
            e = m & MASK
            fs.extend([ZV[i]] * e)
            m >>= BITS; i += 1
        if not fs: terms.append(z3.RealVal(c)); continue
        t = z3.Product(*fs) if len(fs) > 1 else fs[0]
        terms.append(t if c == 1 else z3.RealVal(c) * t)
    if not terms: return z3.RealVal(0)
    return z3.Sum(*terms) if len(terms) > 1 else terms[0]

def rat_str(r, lim=6):
    def ps(p):
        o = []
        for m, c in list(sorted(p.items(), reverse=True))[:lim]:
            fs = []; i = 0
            while m:
                e = m & MASK
                if e: fs.append(VARS[i] + (f"^{e}" if e > 1 else ""))
                m >>= BITS; i += 1
            o.append(str(c) + ("*" + "*".join(fs) if fs else ""))
        if len(p) > lim: o.append(f"...({len(p)})")
        return " + ".join(o) or "0"
    d = "*".join(f"({ps(FACTORS[f])})^{e}" for f, e in r.den.items())
    return f"({ps(r.num)})/({r.q}{'*' + d if d else ''})"

# ---------------------------------------------------------------- square roots

_SQRT_ARGS = []
_SQRT_KEY = {}

def _is_square(n):
    r = math.isqrt(n)
    return r if r * r == n else None

def ext_sqrt(x):
    if not x.num: return Rat.const(0)
    if x.is_const():
        v = x.value()
        if v < 0: raise ValueError("sqrt of a negative number")
        a, b = _is_square(v.numerator), _is_square(v.denominator)
        if a is not None and b is not None: return Rat.const(Fraction(a, b))
    key = (frozenset(x.num.items()), frozenset(x.den.items()), x.q)
    i = _SQRT_KEY.get(key)
    if i is None:
        i = len(_SQRT_ARGS); _SQRT_ARGS.append(x); _SQRT_KEY[key] = i
    return Ext({frozenset([i]): Rat.const(1)})

class Ext:
    """sum of Rat * product of distinct square-root generators."""
    __slots__ = ("t",)
    __array_priority__ = 1001
    _is_sym = True
    def __init__(self, t): self.t = t
    @staticmethod
    def mk(t):
        t = {k: v for k, v in t.items() if v.num}
        if not t: return Rat.const(0)
        if len(t) == 1 and frozenset() in t: return t[frozenset()]
        return Ext(t)
    @staticmethod
    def lift(o):
        if isinstance(o, Ext): return o
        r = Rat.lift(o)
        return None if r is None else Ext({frozenset(): r})
    def __add__(self, o):
        o = Ext.lift(o)
        if o is None: return NotImplemented
        t = dict(self.t)
        for k, v in o.t.items(): t[k] = t[k] + v if k in t else v
        return Ext.mk(t)
    __radd__ = __add__
    def __neg__(self): return Ext({k: -v for k, v in self.t.items()})
    def __pos__(self): return self
    def __sub__(self, o):
        o = Ext.lift(o)
        return NotImplemented if o is None else self + (-o)
    def __rsub__(self, o):
        o = Ext.lift(o)
        return NotImplemented if o is None else o + (-self)
    def __mul__(self, o):
        o = Ext.lift(o)
        if o is None: return NotImplemented
        t = {}
        for k, v in self.t.items():
            for j, w in o.t.items():
                r = v * w
                for g in k & j: r = r * _SQRT_ARGS[g]
                kk = k ^ j
                t[kk] = t[kk] + r if kk in t else r
        return Ext.mk(t)
    __rmul__ = __mul__
    def inv(self):
        if len(self.t) != 1: raise Unsupported("inverse of a sum of square roots")
        (k, v), = self.t.items()
        r = v.inv()
        for g in k: r = r * _SQRT_ARGS[g].inv()
        return Ext.mk({k: r})
    def __truediv__(self, o):
        o = Ext.lift(o)
        return NotImplemented if o is None else self * o.inv()
    def __rtruediv__(self, o):
        return Ext.lift(o) * self.inv()
    def __pow__(self, n):
        r = Rat.const(1)
        for _ in range(int(n)): r = self * r
        return r
    def copy(self): return self
    def sqrt(self): raise Unsupported("nested square root")
    def __eq__(self, o):
        if zsym._isinf(o): return False
        d = self - o
        if isinstance(d, Rat): return d == 0
        if len(d.t) == 1:
            (k, v), = d.t.items()
            return zsym.lor(v == 0, zsym.lor(*[_SQRT_ARGS[g] == 0 for g in k]) if len(k) > 1 else _SQRT_ARGS[next(iter(k))] == 0)
        return zsym.land(d._sgn(False), (-d)._sgn(False))
    def __ne__(self, o): return zsym.lnot(self == o)
    __hash__ = object.__hash__
    def _sgn(self, strict):
        """condition self > 0 (strict) or self >= 0, for a sum of at most one rational function and one root"""
        t = dict(self.t); a = t.pop(frozenset(), Rat.const(0))
        if len(t) != 1: raise Unsupported("comparison of several square roots")
        (k, b), = t.items()
        r = Rat.const(1)
        for g in k: r = r * _SQRT_ARGS[g]
        a2, b2 = a * a, b * b * r
        L, O = zsym.land, zsym.lor
        gt = O(O(L(a > 0, b >= 0), L(a > 0, a2 > b2)), O(L(b > 0, L(a >= 0, r > 0)), L(b > 0, b2 > a2)))
        if strict: return gt
        return O(gt, O(L(a == 0, O(b == 0, r == 0)), L(O(L(a <= 0, b >= 0), L(a >= 0, b <= 0)), a2 == b2)))
    def _rel(self, o, f, inf):
        if zsym._isinf(o): return inf(o)
        t = tolerance(self, Rat.lift(o)) if not isinstance(o, Ext) else None
        if t is not None:
            x, tiny = t
            up = f is not None and inf(-1)
            if tiny > 0: return x > 0 if up else x <= 0
            return x >= 0 if up else x < 0
        d = self - o
        if isinstance(d, Rat): return f(d)
        return f(d)
    def __gt__(self, o): return self._rel(o, lambda d: d._sgn(True) if isinstance(d, Ext) else d > 0, lambda o: o < 0)
    def __ge__(self, o): return self._rel(o, lambda d: d._sgn(False) if isinstance(d, Ext) else d >= 0, lambda o: o < 0)
    def __lt__(self, o): return self._rel(o, lambda d: (-d)._sgn(True), lambda o: o > 0)
    def __le__(self, o): return self._rel(o, lambda d: (-d)._sgn(False), lambda o: o > 0)
    def __repr__(self): return "Ext(" + " + ".join(f"{v}*sqrt{sorted(k)}" for k, v in self.t.items()) + ")"
Ext._ite = staticmethod(_rat_ite)

Rat._sgn = lambda self, strict: self > 0 if strict else self >= 0

def R(x): return Rat.const(x)

# ------------------------------------------------------------------ calculus and composition
def _pdiff(p, sh):
    return {m - (1 << sh): c * ((m >> sh) & MASK) for m, c in p.items() if (m >> sh) & MASK}
def diff(r, v):
    """partial derivative of r with respect to the variable v, through exp, sin, cos, ..."""
    if not isinstance(r, Rat): return Rat.const(0)
    return _diff(r, v_index(v), {})
def _dvar(i, vi, memo):
    """derivative of variable i with respect to variable vi"""
    if i == vi: return Rat.const(1)
    if i in memo: return memo[i]
    a = UF_ARGS.get(i)
    if a is None: d = Rat.const(0)
    else:
        name, x = a
        d = _diff(x, vi, memo)
        if d.num:
            w = Rat({1 << (BITS * i): 1}, {}, 1)
            d = d * {"exp": lambda: w, "log": lambda: 1 / x, "sin": lambda: uf("cos", x), "cos": lambda: -uf("sin", x), "arctan": lambda: 1 / (1 + x * x), "tanh": lambda: 1 - w * w}[name]()
    memo[i] = d
    return d
def _diff(r, vi, memo):
    def dp(p):
        s = Rat.const(0)
        for i in pvars(p):
            d = _dvar(i, vi, memo)
            if d.num: s = s + Rat(_pdiff(p, BITS * i), {}, 1) * d
        return s
    t = dp(r.num)
    out = Rat(t.num, t.den, t.q) * Rat.const(Fraction(1, r.q))
    for f, e in r.den.items():
        for _ in range(e): out = out / Rat(FACTORS[f], {}, 1)
    for f, e in r.den.items():
        d = dp(FACTORS[f])
        if d.num: out = out - r * d * e / Rat(FACTORS[f], {}, 1)
    return out

def compose(r, env):
    """replace variables (index -> Rat) everywhere, inside function arguments as well"""
    if not isinstance(r, Rat): return r
    memo = {}
    def val(i):
        if i in env: return env[i]
        if i in memo: return memo[i]
        a = UF_ARGS.get(i); w = Rat({1 << (BITS * i): 1}, {}, 1)
        if a is not None:
            x = go(a[1])
            if not (isinstance(x, Rat) and isinstance(a[1], Rat) and x.num == a[1].num and x.den == a[1].den and x.q == a[1].q): w = uf(a[0], x if isinstance(x, Rat) else Rat.const(x))
        else:
            b = UFN_ARGS.get(i)
            if b is not None: w = ufn(b[0], *[go(x) for x in b[1]])
        memo[i] = w
        return w
    def pol(p):
        vs = [i for i in pvars(p)]
        ch = [i for i in vs if not _same(val(i), i)]
        if not ch: return Rat(p, {}, 1)
        s = Rat.const(0); groups = {}
        for m, c in p.items():
            k = tuple((m >> (BITS * i)) & MASK for i in ch)
            for i, e in zip(ch, k): m -= e << (BITS * i)
            groups.setdefault(k, {})[m] = c
        for k, g in groups.items():
            t = Rat(g, {}, 1)
            for i, e in zip(ch, k):
                if e: t = t * Rat.lift(val(i)) ** e
            s = s + t
        return s
    def go(r):
        if not isinstance(r, Rat): return r
        out = pol(r.num) * Rat.const(Fraction(1, r.q))
        for f, e in r.den.items(): out = out / pol(FACTORS[f]) ** e
        return out
    return go(r)
def _same(x, i): return isinstance(x, Rat) and not x.den and x.q == 1 and x.num == {1 << (BITS * i): 1}
