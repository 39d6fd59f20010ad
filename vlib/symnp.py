"""Symbolic NumPy/SciPy layer and loader: executes the real source of /repo/parallel_control on symbolic scalars."""
import ast, builtins, importlib, math as _math, os, sys, types, numbers
from fractions import Fraction
import numpy as np
from . import zsym, poly
from .zsym import (RealT, FInt, BoolT, LogP, Unsupported, ite, is_num, is_sym, smin, smax, land, lor, lnot, CannotMerge)
from .poly import Rat, Ext

REPO = os.environ.get("VERIF_REPO", "/repo")

# ---------------------------------------------------------------- array type

def _kind_of_dtype(dt):
    if dt is None: return 'f'
    if isinstance(dt, KDtype): return dt.k
    if dt is object: return 'f'
    if isinstance(dt, type):
        if issubclass(dt, (bool, np.bool_)): return 'b'
        if issubclass(dt, (int, np.integer)): return 'i'
        if issubclass(dt, (float, np.floating)): return 'f'
    try:
        k = np.dtype(dt).kind
    except TypeError:
        if dt is int: return 'i'
        if dt is bool: return 'b'
        return 'f'
    return {'i': 'i', 'u': 'i', 'b': 'b'}.get(k, 'f')

class KDtype:
    """stand-in for the dtype of a symbolic array: remembers whether it would be float, integer or boolean."""
    def __init__(self, k): self.k = k
    @property
    def kind(self): return self.k
    @property
    def name(self): return {'f': 'float64', 'i': 'int64', 'b': 'bool'}[self.k]
    @property
    def type(self): return {'f': np.float64, 'i': np.int64, 'b': np.bool_}[self.k]
    def __call__(self, x): return coerce(x, self.k)
    def __eq__(self, o): return _kind_of_dtype(o) == self.k
    def __hash__(self): return hash(self.k)

def coerce(x, k):
    """value stored into an array of kind k."""
    if k == 'f' or x is None:
        return x
    if k == 'i':
        if isinstance(x, (bool, np.bool_)): return int(x)
        if isinstance(x, (int, np.integer)): return int(x)
        if isinstance(x, FInt): return x
        if isinstance(x, BoolT): return zsym.num(x)
        if isinstance(x, (float, np.floating)): return int(x)
        if isinstance(x, Fraction): return _math.trunc(x)
        if isinstance(x, (RealT, Rat)): return x.trunc()
        return x
    if k == 'b':
        if isinstance(x, (bool, np.bool_)): return bool(x)
        if isinstance(x, BoolT): return x
        return x != 0
    return x

def unwrap(x):
    if isinstance(x, SymArray): return x.view(np.ndarray)
    if isinstance(x, tuple): return tuple(unwrap(i) for i in x)
    if isinstance(x, list): return [unwrap(i) for i in x]
    if isinstance(x, dict): return {k: unwrap(v) for k, v in x.items()}
    if isinstance(x, KDtype): return object
    return x

def wrap(x, kind='f'):
    if isinstance(x, np.ndarray) and not isinstance(x, SymArray):
        if x.dtype != object:
            k = _kind_of_dtype(x.dtype)
            x = to_obj(x); kind = k
        y = x.view(SymArray)
        y._kind = kind
        return y
    if isinstance(x, tuple) and type(x) is tuple: return tuple(wrap(i, kind) for i in x)
    if isinstance(x, list): return [wrap(i, kind) for i in x]
    return x

def to_obj(a):
    """object array with Python scalars."""
    a = np.asarray(a)
    if a.dtype == object:
        return a
    out = np.empty(a.shape, dtype=object)
    k = a.dtype.kind
    f = out.reshape(-1); s = a.reshape(-1)
    for i in range(f.shape[0]):
        v = s[i]
        if k == 'b': f[i] = bool(v)
        elif k in 'iu': f[i] = int(v)
        else:
            v = float(v)
            f[i] = v if (_math.isinf(v) or _math.isnan(v)) else cval(v)
    return f.reshape(a.shape)

def cval(v):
    """constant real as a symbolic-layer constant."""
    fr = zsym.nice(v)
    return int(fr) if fr.denominator == 1 else Rat.const(fr) if DOMAIN["rat"] else fr

DOMAIN = zsym.DOMAIN

_scalar_types = (RealT, FInt, BoolT, LogP, Rat, Ext)

def has_sym_index(key):
    if isinstance(key, (FInt, BoolT, Rat, RealT)): return True
    if isinstance(key, SymArray): return True
    if isinstance(key, np.ndarray) and key.dtype == object: return True
    if isinstance(key, tuple): return any(has_sym_index(k) for k in key)
    if isinstance(key, list): return any(has_sym_index(k) for k in key)
    return False

def _conc_index(key):
    """turn object index arrays holding only concrete ints into real ones; returns (key, still_symbolic)."""
    if isinstance(key, tuple):
        ks = [_conc_index(k) for k in key]
        return tuple(k for k, _ in ks), any(s for _, s in ks)
    if isinstance(key, list):
        if any(isinstance(k, _scalar_types) or isinstance(k, (list, np.ndarray)) for k in key):
            return _conc_index(np.array(key, dtype=object))
        return key, False
    if isinstance(key, Rat): return int(key.__index__()), False
    if isinstance(key, SymArray): key = key.view(np.ndarray)
    if isinstance(key, np.ndarray) and key.dtype == object:
        a = key
        if a.ndim == 0: return _conc_index(a.item())
        flat = a.reshape(-1)
        if all(isinstance(v, (bool, np.bool_)) for v in flat) and flat.size:
            return a.astype(bool), False
        if all(isinstance(v, (int, np.integer, Rat)) and not isinstance(v, bool) for v in flat):
            return np.array([int(v) for v in flat], dtype=np.intp).reshape(a.shape), False
        return a, True
    if isinstance(key, FInt): return key, True
    if isinstance(key, BoolT): return key, True
    return key, False

def _index_alternatives(key, shape):
    """yield (guard, concrete key) alternatives for a key holding scalar FInts only."""
    raise NotImplementedError

class SymArray(np.ndarray):
    _kind = 'f'
    __array_priority__ = 100

    def __array_finalize__(self, obj):
        if obj is not None: self._kind = getattr(obj, "_kind", 'f')

    # dtype seen by the code under test
    @property
    def kdtype(self): return KDtype(self._kind)

    def __getattribute__(self, name):
        if name == "dtype" and not _INTERNAL[0]:
            return KDtype(object.__getattribute__(self, "_kind"))
        return super().__getattribute__(name)

    # -- element access
    def __getitem__(self, key):
        if has_sym_index(key):
            key, s = _conc_index(key)
            if s: return self._sym_get(key)
        r = self.view(np.ndarray)[_plain(key)]
        if isinstance(r, np.ndarray):
            r = r.view(SymArray); r._kind = self._kind
        return r

    def __setitem__(self, key, val):
        if has_sym_index(key):
            key, s = _conc_index(key)
            if s: return self._sym_set(key, val)
        base = self.view(np.ndarray)
        key = _plain(key)
        if isinstance(val, np.ndarray) or isinstance(val, (list, tuple)):
            v = unwrap(asobj(val))
            if self._kind != 'f':
                v = _map(lambda x: coerce(x, self._kind), v)
            if v.ndim == 0: v = v.item()
            if not isinstance(v, np.ndarray):
                base[key] = v; return
            tgt = base[key]
            if not isinstance(tgt, np.ndarray):       # scalar slot
                if v.size != 1: raise ValueError("setting an array element with a sequence.")
                base[key] = v.reshape(-1)[0]; return
            base[key] = v
        else:
            val = coerce(val, self._kind)
            tgt_is_scalar = True
            base[key] = val

    def _sym_get(self, key):
        if isinstance(key, np.ndarray) and key.dtype == object and key.size and isinstance(key.reshape(-1)[0], (bool, np.bool_, BoolT)):
            raise Unsupported("symbolic boolean mask")
        if not isinstance(key, tuple): key = (key,)
        base = self.view(np.ndarray)
        # positions holding symbolic entries
        arrs = [(i, k) for i, k in enumerate(key) if isinstance(k, np.ndarray) and (k.dtype == object or k.dtype.kind in 'iu')]
        scal = [(i, k) for i, k in enumerate(key) if isinstance(k, FInt)]
        if not any(isinstance(k, np.ndarray) for _, k in arrs):
            # scalar symbolic indices: merge over values (one at a time)
            i, k = scal[0]
            n = _axis_len(base, key, i)
            def at(v):
                if not (-n <= v < n): return _oob()
                kk = key[:i] + (v,) + key[i + 1:]
                return self[kk if len(kk) > 1 else kk[0]]
            return _select(k, at, n)
        # advanced index with arrays: broadcast all index arrays and go elementwise (remaining axes: ints/slices at the end)
        adv = [k for k in key if isinstance(k, (np.ndarray, FInt, int, np.integer))]
        rest = [k for k in key if not isinstance(k, (np.ndarray, FInt, int, np.integer))]
        if any(not (isinstance(r, slice) or r is Ellipsis) for r in rest):
            raise Unsupported("mixed advanced indexing")
        idx_pos = [i for i, k in enumerate(key) if isinstance(k, (np.ndarray, FInt, int, np.integer))]
        if idx_pos != list(range(idx_pos[0], idx_pos[0] + len(idx_pos))):
            raise Unsupported("non-adjacent advanced indices")
        if any(k is Ellipsis for k in key): 
            n_el = base.ndim - (len(key) - 1)
            e = [i for i, k in enumerate(key) if k is Ellipsis][0]
            return self[key[:e] + (slice(None),) * n_el + key[e + 1:]]
        lead = idx_pos[0]
        bs = np.broadcast(*[np.asarray(k, dtype=object) if not isinstance(k, np.ndarray) else k for k in adv])
        shp = bs.shape
        badv = [np.broadcast_to(_oarr(k), shp) for k in adv]
        pre = key[:lead]; post = key[idx_pos[-1] + 1:]
        parts = []
        for pos in np.ndindex(*shp):
            kk = pre + tuple(_scal(b[pos]) for b in badv) + post
            parts.append(self[kk if len(kk) > 1 else kk[0]])
        sub = parts[0].shape if isinstance(parts[0], np.ndarray) else ()
        out = np.empty((len(parts),) + sub, dtype=object)
        for j, p in enumerate(parts):
            if sub: out[j] = p.view(np.ndarray)
            else: out[j] = p
        out = out.reshape(shp + sub)
        if lead: out = np.moveaxis(out, list(range(len(shp))), list(range(lead, lead + len(shp)))) if sub else out
        return wrap(out, self._kind)

    def _sym_set(self, key, val):
        if not isinstance(key, tuple): key = (key,)
        base = self.view(np.ndarray)
        scal = [(i, k) for i, k in enumerate(key) if isinstance(k, FInt)]
        if any(isinstance(k, np.ndarray) for k in key):
            arrs = [k for k in key if isinstance(k, np.ndarray)]
            adv_all = all(isinstance(k, (np.ndarray, int, np.integer, FInt)) for k in key)
            if not adv_all: raise Unsupported("assignment through a symbolic index array")
            shp = np.broadcast(*[_oarr(k) for k in key]).shape
            b = [np.broadcast_to(_oarr(k), shp) for k in key]
            v = np.broadcast_to(unwrap(asobj(val)), shp + base.shape[len(key):]) 
            for pos in np.ndindex(*shp):
                kk = tuple(_scal(x[pos]) for x in b)
                self[kk if len(kk) > 1 else kk[0]] = v[pos] if not isinstance(v[pos], np.ndarray) else wrap(v[pos])
            return
        i, k = scal[0]
        n = _axis_len(base, key, i)
        for v, g in k.d.items():
            if not (-n <= v < n):
                zsym.CTX.sideconds.append((zsym.z3.Not(g), "index in range")); continue
            kk = key[:i] + (v,) + key[i + 1:]
            kk = kk if len(kk) > 1 else kk[0]
            old = self[kk]
            old = old.copy() if isinstance(old, np.ndarray) else old
            new = val
            if isinstance(old, np.ndarray):
                new = wrap(np.array(np.broadcast_to(unwrap(asobj(val)), old.shape), dtype=object))
            self[kk] = ite(zsym.mkbool(g), new, old)

    # -- methods
    def argmin(self, axis=None, out=None, **kw): return _argred(self, axis, zsym_argmin, kw)
    def argmax(self, axis=None, out=None, **kw): return _argred(self, axis, zsym_argmax, kw)
    def min(self, axis=None, out=None, keepdims=False, **kw): return _red(self, axis, fold_min, keepdims)
    def max(self, axis=None, out=None, keepdims=False, **kw): return _red(self, axis, fold_max, keepdims)
    def any(self, axis=None, out=None, keepdims=False, **kw): return _red(self, axis, lambda v: _foldl(lor, v, False), keepdims, 'b')
    def all(self, axis=None, out=None, keepdims=False, **kw): return _red(self, axis, lambda v: _foldl(land, v, True), keepdims, 'b')
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        r = _red(self, axis, lambda v: _foldl(lambda a, b: a + b, v, 0), keepdims, 'i' if self._kind in 'ib' else 'f'); return r
    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return _red(self, axis, lambda v: _foldl(lambda a, b: a * b, v, 1), keepdims, self._kind)
    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        n = self.size if axis is None else (np.prod([self.shape[a] for a in (axis if isinstance(axis, tuple) else (axis,))]))
        return self.sum(axis=axis, keepdims=keepdims) / int(n)
    def dot(self, o): return wrap(np.dot(self.view(np.ndarray), unwrap(asobj(o))))
    def astype(self, dt, *a, **kw):
        k = _kind_of_dtype(dt)
        r = wrap(_map(lambda x: coerce(x, k), self.view(np.ndarray)), k)
        return r
    def copy(self, order='C'):
        r = self.view(np.ndarray).copy().view(SymArray); r._kind = self._kind; return r
    def tolist(self): return self.view(np.ndarray).tolist()
    def item(self, *a): return self.view(np.ndarray).item(*a)
    def sort(self, axis=-1, **kw): raise Unsupported("in-place sort")
    def clip(self, lo=None, hi=None, out=None): return H_clip(self, lo, hi)
    def round(self, decimals=0, out=None): return H_round(self, decimals)
    def nonzero(self): return np.nonzero(_boolarr(self))
    def __bool__(self):
        if self.size == 1: return bool(self.view(np.ndarray).reshape(-1)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous")
    def __float__(self):
        return float(self.view(np.ndarray).reshape(-1)[0])
    def __index__(self):
        if self.size == 1 and self.ndim == 0:
            v = self.view(np.ndarray).item(); return v.__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")
    def __int__(self): return int(self.view(np.ndarray).reshape(-1)[0])
    def __iter__(self):
        for i in range(len(self)): yield self[i]
    def __reduce__(self): raise Unsupported("pickle")
    def __deepcopy__(self, memo): return self.copy()
    @property
    def at(self): return _At(self)

    # -- protocols
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        return apply_ufunc(ufunc, method, inputs, out, kw)

    def __array_function__(self, func, types, args, kwargs):
        h = HANDLERS.get(func)
        if h is not None:
            r = h(*args, **kwargs)
            return r
        kwargs = {k: (object if k == 'dtype' and isinstance(v, KDtype) else v) for k, v in kwargs.items()}
        kinds = _kinds(args)
        kind = 'i' if kinds and all(k in 'ib' for k in kinds) and any(k == 'i' for k in kinds) else ('b' if kinds and all(k == 'b' for k in kinds) else 'f')
        r = func(*unwrap(args), **unwrap(kwargs))
        return wrap(r, kind)

class _At:
    """functional updates of jax arrays"""
    def __init__(self, a, key=None): self.a, self.key = a, key
    def __getitem__(self, key): return _At(self.a, key)
    def _upd(self, f):
        r = self.a.copy(); r[self.key] = f(r[self.key]); return r
    def set(self, v, **k): return self._upd(lambda o: v)
    def add(self, v, **k): return self._upd(lambda o: o + v)
    def multiply(self, v, **k): return self._upd(lambda o: o * v)
    def min(self, v, **k): return self._upd(lambda o: apply_ufunc(np.minimum, "__call__", (o, v), None, {}))
    def max(self, v, **k): return self._upd(lambda o: apply_ufunc(np.maximum, "__call__", (o, v), None, {}))

_INTERNAL = [False]

def _kinds(x):
    out = []
    if isinstance(x, SymArray): return [x._kind]
    if isinstance(x, np.ndarray): return [_kind_of_dtype(x.dtype)]
    if isinstance(x, (tuple, list)):
        for i in x: out += _kinds(i)
    return out

def _plain(key):
    if isinstance(key, tuple): return tuple(_plain(k) for k in key)
    if isinstance(key, SymArray): return key.view(np.ndarray)
    return key

def _oarr(k):
    if isinstance(k, np.ndarray): return k if k.dtype == object else to_obj(k)
    a = np.empty((), dtype=object); a[()] = k
    return a

def _scal(v):
    return v.item() if isinstance(v, np.ndarray) else v

def _axis_len(base, key, i):
    ax = 0
    for j in range(i):
        if key[j] is None: continue
        if key[j] is Ellipsis:
            ax += base.ndim - (len([k for k in key if k is not None]) - 1); continue
        ax += 1
    return base.shape[ax]

class _OOB: pass
OOB = _OOB()
def _oob(): return OOB

def _select(k, at, n):
    items = []
    for v, g in k.d.items():
        if not (-n <= v < n):
            zsym.CTX.sideconds.append((zsym.z3.Not(g), "index in range"))
        else:
            items.append((g, at(v)))
    if not items: raise IndexError("index out of bounds")
    r = items[-1][1]
    for g, x in reversed(items[:-1]): r = ite(zsym.mkbool(g), x, r)
    return r

def asobj(x):
    """object ndarray (SymArray keeps its type) from anything."""
    if isinstance(x, np.ndarray):
        if isinstance(x, SymArray): return x
        return wrap(x)
    if isinstance(x, (list, tuple)):
        subs = [asobj(i) for i in x]
        if not subs:
            return wrap(np.empty((0,), dtype=object))
        shp = subs[0].shape
        for s in subs:
            if s.shape != shp: raise ValueError("inhomogeneous shape")
        out = np.empty((len(subs),) + shp, dtype=object)
        for i, s in enumerate(subs): out[i] = s.view(np.ndarray) if shp else s.view(np.ndarray).item()
        ks = [s._kind for s in subs]
        return wrap(out, 'f' if 'f' in ks else ('i' if 'i' in ks else 'b'))
    a = np.empty((), dtype=object)
    k = 'f'
    if isinstance(x, (bool, np.bool_, BoolT)): k = 'b'; x = bool(x) if not isinstance(x, BoolT) else x
    elif isinstance(x, (int, np.integer, FInt)): k = 'i'; x = int(x) if not isinstance(x, FInt) else x
    elif isinstance(x, (float, np.floating)) and not (_math.isinf(x) or _math.isnan(x)): x = cval(float(x))
    a[()] = x
    return wrap(a, k)

def _map(f, a):
    a = np.asarray(a)
    out = np.empty(a.shape, dtype=object)
    s = a.reshape(-1); o = out.reshape(-1)
    for i in range(o.shape[0]): o[i] = f(s[i])
    return o.reshape(a.shape)

def _foldl(f, vals, empty):
    if not len(vals): return empty
    r = vals[0]
    for v in vals[1:]: r = f(r, v)
    return r

def _norm_const(vals):
    return vals

def dominated(vals, keep_min):
    return list(range(len(vals)))

def fold_min(vals):
    if len(vals) == 0: raise ValueError("zero-size array to reduction operation minimum which has no identity")
    if all(is_num(v) for v in vals): return min(vals)
    return _foldl(smin, list(vals), None)

def fold_max(vals):
    if len(vals) == 0: raise ValueError("zero-size array to reduction operation maximum which has no identity")
    if all(is_num(v) for v in vals): return max(vals)
    return _foldl(smax, list(vals), None)

def _flat_arg(vals, lt, le):
    n = len(vals)
    if all(is_num(v) for v in vals):
        best = 0
        for i in range(1, n):
            if lt(vals[i], vals[best]): best = i
        return best
    d = {}
    for i in range(n):
        c = True
        for j in range(n):
            if j == i: continue
            c = land(c, lt(vals[i], vals[j]) if j < i else le(vals[i], vals[j]))
            if c is False: break
        if c is False: continue
        d[i] = c
    for i, c in d.items():
        if c is True: return i
    if len(d) == 1: return next(iter(d))
    return FInt({i: c.e for i, c in d.items()})

def zsym_argmin(vals): return _flat_arg(vals, lambda a, b: a < b, lambda a, b: a <= b)
def zsym_argmax(vals): return _flat_arg(vals, lambda a, b: a > b, lambda a, b: a >= b)

def _red(a, axis, f, keepdims=False, kind=None):
    base = unwrap(asobj(a))
    kind = kind or (a._kind if isinstance(a, SymArray) else 'f')
    if axis is None:
        r = f([x for x in base.reshape(-1)])
        if keepdims:
            o = np.empty((1,) * base.ndim, dtype=object); o[...] = r
            return wrap(o, kind)
        return r
    axes = axis if isinstance(axis, tuple) else (axis,)
    axes = sorted(x % base.ndim for x in axes)
    rest = [i for i in range(base.ndim) if i not in axes]
    t = np.transpose(base, rest + axes)
    shp = t.shape[:len(rest)]
    t = t.reshape(shp + (-1,))
    out = np.empty(shp, dtype=object)
    for pos in np.ndindex(*shp): out[pos] = f([x for x in t[pos]])
    if keepdims:
        return wrap(out.reshape(tuple(1 if i in axes else base.shape[i] for i in range(base.ndim))), kind)
    if not shp: return out.item()
    return wrap(out, kind)

def _argred(a, axis, f, kw):
    r = _red(a, axis, f, kw.get("keepdims", False), 'i')
    return r

def _boolarr(a):
    b = unwrap(asobj(a))
    return np.array([bool(x) for x in b.reshape(-1)], dtype=bool).reshape(b.shape)

# ---------------------------------------------------------------- ufuncs

def _isnumlike(x): return isinstance(x, (int, float, Fraction, np.integer, np.floating, bool, np.bool_))

def s_div(a, b):
    if isinstance(a, BoolT): a = zsym.num(a)
    if isinstance(b, BoolT): b = zsym.num(b)
    if _isnumlike(a) and _isnumlike(b):
        if zsym._isinf(a) or zsym._isinf(b): return float(a) / float(b)
        if b == 0:
            return float('nan') if a == 0 else (float('inf') if a > 0 else -float('inf'))
        fr = zsym.to_frac(a) / zsym.to_frac(b)
        return int(fr) if fr.denominator == 1 else (Rat.const(fr) if DOMAIN["rat"] else fr)
    return a / b

def s_pow(a, n):
    if isinstance(n, Rat) and n.is_const(): n = n.value()
    if isinstance(n, Fraction) and n.denominator == 1: n = int(n)
    if isinstance(n, float) and n == int(n): n = int(n)
    if _isnumlike(a) and isinstance(n, (int, np.integer)):
        if n >= 0: return zsym.to_frac(a) ** int(n) if not isinstance(a, (int, np.integer)) else int(a) ** int(n)
        fr = Fraction(1) / zsym.to_frac(a) ** int(-n)
        return fr
    if n == Fraction(1, 2) or (isinstance(n, float) and n == 0.5): return s_un("sqrt")(a)
    return a ** n

def s_un(name):
    def f(a):
        if isinstance(a, (int, np.integer, np.floating, float, Fraction)) and not isinstance(a, bool):
            if name in ("sqrt",):
                if zsym._isinf(a): return a
                fr = zsym.to_frac(a)
                if fr < 0: return float('nan')
                x, y = poly._is_square(fr.numerator), poly._is_square(fr.denominator)
                if x is not None and y is not None: return Fraction(x, y) if y != 1 else x
                if DOMAIN["rat"]: return Rat.const(fr).sqrt()
                return zsym.nice(_math.sqrt(fr))
            if a == 0:
                z = {"exp": 1, "sin": 0, "cos": 1, "tan": 0, "arctan": 0, "tanh": 0, "arcsin": 0, "sinh": 0, "cosh": 1}
                if name in z: return z[name]
                if name == "log": return -float('inf')
            if name == "log" and a == 1: return 0
            if zsym._isinf(a):
                return float(getattr(np, name)(a))
            if DOMAIN["rat"]: return getattr(Rat.const(a), name)()
            return zsym.nice(float(getattr(np, name)(float(a))))
        m = getattr(a, name, None)
        if m is None: raise Unsupported(f"{name} of {type(a).__name__}")
        return m()
    return f

def s_abs(a): return abs(a)
def s_sign(a):
    if _isnumlike(a): return (a > 0) - (a < 0)
    return ite(a > 0, 1, ite(a < 0, -1, 0))
def s_floordiv(a, b):
    if _isnumlike(a) and _isnumlike(b):
        r = zsym.to_frac(a) // zsym.to_frac(b); return int(r)
    if isinstance(a, (RealT, Rat)): return (a / b).floor()
    return a // b
def s_mod(a, b):
    if isinstance(a, (RealT, Rat)): return a - b * (a / b).floor()
    if isinstance(a, Fraction) or isinstance(b, Fraction): return zsym.to_frac(a) % zsym.to_frac(b)
    return a % b
def s_floor(a):
    if _isnumlike(a): return a if zsym._isinf(a) else _math.floor(zsym.to_frac(a))
    return a if isinstance(a, FInt) else a.floor()
def s_rint(a):
    if _isnumlike(a): return a if zsym._isinf(a) else round(zsym.to_frac(a))
    if isinstance(a, FInt): return a
    if isinstance(a, RealT):
        z = zsym.z3; r = z.ToInt(a.e + z.RealVal("1/2")); return RealT(z.ToReal(z.If(z.And(z.ToReal(r) - a.e == z.RealVal("1/2"), r % 2 == 1), r - 1, r)))
    return a.rint()
def s_ceil(a):
    if _isnumlike(a): return a if zsym._isinf(a) else _math.ceil(zsym.to_frac(a))
    return a if isinstance(a, FInt) else a.ceil()
def s_trunc(a):
    if _isnumlike(a): return _math.trunc(zsym.to_frac(a))
    return a if isinstance(a, FInt) else a.trunc()
def s_isnan(a): return bool(isinstance(a, float) and _math.isnan(a))
def s_isinf(a): return bool(zsym._isinf(a))
def s_isfinite(a): return not (s_isnan(a) or s_isinf(a))

def s_lt(a, b): return a < b
def s_le(a, b): return a <= b
def s_gt(a, b): return a > b
def s_ge(a, b): return a >= b
def s_eq(a, b): return a == b
def s_ne(a, b): return a != b
def s_and(a, b): return land(_tb(a), _tb(b))
def s_or(a, b): return lor(_tb(a), _tb(b))
def _tb(a): return a if isinstance(a, (bool, np.bool_, BoolT)) else a != 0
def s_bitand(a, b):
    if isinstance(a, (bool, np.bool_, BoolT)) and isinstance(b, (bool, np.bool_, BoolT)): return land(a, b)
    return a & b
def s_bitor(a, b):
    if isinstance(a, (bool, np.bool_, BoolT)) and isinstance(b, (bool, np.bool_, BoolT)): return lor(a, b)
    return a | b
def s_inv(a): return lnot(a) if isinstance(a, (bool, np.bool_, BoolT)) else ~a
def s_add(a, b): return _fx(a) + _fx(b)
def s_sub(a, b):
    a = _fx(a); b = _fx(b)
    return a - b
def s_mul(a, b): return _fx(a) * _fx(b)
def _fx(a):
    """float constants met in arithmetic become exact constants."""
    if isinstance(a, (float, np.floating)) and not (_math.isinf(a) or _math.isnan(a)): return cval(float(a))
    if isinstance(a, BoolT): return zsym.num(a)
    return a

CMP = 'b'
UF = {
    "add": (s_add, None), "subtract": (s_sub, None), "multiply": (s_mul, None),
    "true_divide": (s_div, 'f'), "divide": (s_div, 'f'), "power": (s_pow, None), "float_power": (s_pow, 'f'),
    "floor_divide": (s_floordiv, None), "remainder": (s_mod, None), "mod": (s_mod, None),
    "negative": (lambda a: -_fx(a), None), "positive": (lambda a: a, None),
    "absolute": (s_abs, None), "fabs": (s_abs, None), "sign": (s_sign, None), "square": (lambda a: a * a, None),
    "reciprocal": (lambda a: s_div(1, a), 'f'),
    "minimum": (smin, None), "maximum": (smax, None), "fmin": (smin, None), "fmax": (smax, None),
    "less": (s_lt, CMP), "less_equal": (s_le, CMP), "greater": (s_gt, CMP), "greater_equal": (s_ge, CMP),
    "equal": (s_eq, CMP), "not_equal": (s_ne, CMP),
    "logical_and": (s_and, CMP), "logical_or": (s_or, CMP), "logical_not": (lambda a: lnot(_tb(a)), CMP),
    "bitwise_and": (s_bitand, None), "bitwise_or": (s_bitor, None), "invert": (s_inv, None), "bitwise_not": (s_inv, None),
    "floor": (s_floor, None), "ceil": (s_ceil, None), "trunc": (s_trunc, None), "rint": (s_rint, None),
    "isnan": (s_isnan, CMP), "isinf": (s_isinf, CMP), "isfinite": (s_isfinite, CMP),
    "exp": (s_un("exp"), 'f'), "log": (s_un("log"), 'f'), "sqrt": (s_un("sqrt"), 'f'), "sin": (s_un("sin"), 'f'),
    "cos": (s_un("cos"), 'f'), "tan": (s_un("tan"), 'f'), "arctan": (s_un("arctan"), 'f'), "tanh": (s_un("tanh"), 'f'),
    "conjugate": (lambda a: a, None), "conj": (lambda a: a, None),
    "clip": (lambda a, lo, hi: smin(smax(a, lo), hi), None),
}

def _promote(kinds):
    if 'f' in kinds: return 'f'
    if 'i' in kinds: return 'i'
    return 'b'

def apply_ufunc(ufunc, method, inputs, out, kw):
    name = ufunc.__name__
    kw.pop("dtype", None); kw.pop("casting", None)
    if name == "matmul":
        a, b = [unwrap(asobj(x)) for x in inputs]
        r = omatmul(a, b)
        r = wrap(r)
        if out: out[0][...] = r; return out[0]
        return r
    if name == "vecdot": raise Unsupported(name)
    ent = UF.get(name)
    if ent is None or ent[0] is None: raise Unsupported(f"ufunc {name}")
    f, rk = ent
    arrs = [asobj(x) for x in inputs]
    kinds = [a._kind for a in arrs]
    if method == "__call__":
        where = kw.pop("where", True)
        bs = [unwrap(a) for a in arrs]
        shp = np.broadcast_shapes(*[b.shape for b in bs])
        bb = [np.broadcast_to(b, shp) for b in bs]
        res = np.empty(shp, dtype=object)
        if shp == ():
            v = f(*[b.item() for b in bs])
            res[()] = v
        else:
            for pos in np.ndindex(*shp): res[pos] = f(*[b[pos] for b in bb])
        kind = rk or _promote(kinds)
        if out:
            o = out[0]
            if isinstance(o, SymArray) and o._kind == 'i' and kind == 'f':
                raise TypeError(f"Cannot cast ufunc '{name}' output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
            if where is not True:
                w = np.broadcast_to(unwrap(asobj(where)), shp)
                cur = np.broadcast_to(unwrap(asobj(o)), shp)
                res = _map2(lambda c, x, y: ite(c, x, y), w, res, cur)
            if isinstance(o, SymArray):
                o[...] = wrap(res, kind)
                return o
            raise Unsupported("out= into a non-symbolic array")
        if shp == (): return res.item() if all(not isinstance(x, np.ndarray) or x.ndim == 0 for x in inputs) else wrap(res, kind)
        return wrap(res, kind)
    if method == "reduce":
        axis = kw.pop("axis", 0)
        keep = kw.pop("keepdims", False)
        init = kw.pop("initial", None)
        kw.pop("where", None)
        a = arrs[0]
        def g(vals):
            vals = list(vals)
            if init is not None and init is not np._NoValue: vals = [init] + vals
            if name in ("minimum",): return fold_min(vals)
            if name in ("maximum",): return fold_max(vals)
            e = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}.get(name)
            return _foldl(f, vals, e)
        return _red(a, axis, g, keep, rk or a._kind)
    if method == "accumulate":
        axis = kw.pop("axis", 0)
        a = unwrap(arrs[0]).copy()
        a = np.moveaxis(a, axis, 0).copy()
        for i in range(1, a.shape[0]):
            a[i] = _map2(f, a[i - 1], a[i]) if isinstance(a[i], np.ndarray) else f(a[i - 1], a[i])
        return wrap(np.moveaxis(a, 0, axis), kinds[0])
    if method == "outer":
        a, b = [unwrap(x) for x in arrs]
        return apply_ufunc(ufunc, "__call__", (wrap(a.reshape(a.shape + (1,) * b.ndim), kinds[0]), wrap(b, kinds[1])), out, kw)
    if method == "at":
        raise Unsupported("ufunc.at")
    raise Unsupported(f"ufunc method {method}")

def _map2(f, *arrs):
    shp = arrs[0].shape
    o = np.empty(shp, dtype=object)
    for pos in np.ndindex(*shp): o[pos] = f(*[a[pos] for a in arrs])
    return o

def odot(u, v):
    s = None
    for a, b in zip(u, v):
        if isinstance(a, int) and a == 0: continue
        if isinstance(b, int) and b == 0: continue
        t = s_mul(a, b)
        s = t if s is None else s + t
    return 0 if s is None else s

def omatmul(a, b):
    if a.ndim == 0 or b.ndim == 0: raise ValueError("matmul: Input operand does not have enough dimensions")
    va = a.ndim == 1; vb = b.ndim == 1
    if va: a = a[None, :]
    if vb: b = b[:, None]
    if a.shape[-1] != b.shape[-2]:
        raise ValueError(f"matmul: Input operand 1 has a mismatch in its core dimension 0 (size {b.shape[-2]} is different from {a.shape[-1]})")
    shp = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    A = np.broadcast_to(a, shp + a.shape[-2:]); B = np.broadcast_to(b, shp + b.shape[-2:])
    out = np.empty(shp + (a.shape[-2], b.shape[-1]), dtype=object)
    for pos in np.ndindex(*shp):
        x, y = A[pos], B[pos]
        for i in range(x.shape[0]):
            for j in range(y.shape[1]):
                out[pos + (i, j)] = odot(x[i], y[:, j])
    if va: out = out[..., 0, :]
    if vb: out = out[..., 0]
    if out.ndim == 0: return out.item()
    return out

# ---------------------------------------------------------------- numpy functions

HANDLERS = {}
def handles(*fs):
    def d(g):
        for f in fs: HANDLERS[f] = g
        return g
    return d

@handles(np.where)
def H_where(c, *ab):
    if not ab: return np.nonzero(_boolarr(c))
    a, b = [asobj(x) for x in ab]
    c = asobj(c)
    shp = np.broadcast_shapes(c.shape, a.shape, b.shape)
    C, A, B = [np.broadcast_to(unwrap(x), shp) for x in (c, a, b)]
    return wrap(_map2(lambda x, y, z: ite(_tb(x), y, z), C, A, B), _promote([a._kind, b._kind]))

@handles(np.dot)
def H_dot(a, b, out=None):
    a = asobj(a); b = asobj(b)
    if a.ndim == 0 or b.ndim == 0: return a * b
    if b.ndim <= 2 and a.ndim <= 2: return wrap(omatmul(unwrap(a), unwrap(b)))
    raise Unsupported("dot of higher rank")

@handles(np.inner)
def H_inner(a, b):
    a = asobj(a); b = asobj(b)
    if a.ndim == 1 and b.ndim == 1: return odot(unwrap(a), unwrap(b))
    raise Unsupported("inner")

@handles(np.clip)
def H_clip(a, lo=None, hi=None, out=None, **kw):
    r = asobj(a)
    if lo is not None: r = apply_ufunc(np.maximum, "__call__", (r, lo), None, {})
    if hi is not None: r = apply_ufunc(np.minimum, "__call__", (r, hi), None, {})
    return r

@handles(np.round, np.around)
def H_round(a, decimals=0, out=None):
    if decimals: raise Unsupported("rounding to decimals")
    return apply_ufunc(np.rint, "__call__", (asobj(a),), None, {})
@handles(np.fix)
def H_fix(a, out=None): return apply_ufunc(np.trunc, "__call__", (asobj(a),), None, {})

@handles(np.zeros_like, np.empty_like)
def H_zeros_like(a, dtype=None, order=None, subok=True, shape=None):
    k = a._kind if dtype is None and isinstance(a, SymArray) else _kind_of_dtype(dtype if dtype is not None else np.asarray(a).dtype)
    return full(a.shape if shape is None else shape, _zero(k), k)

@handles(np.ones_like)
def H_ones_like(a, dtype=None, order=None, subok=True, shape=None):
    k = a._kind if dtype is None and isinstance(a, SymArray) else _kind_of_dtype(dtype)
    return full(a.shape if shape is None else shape, 1, k)

@handles(np.full_like)
def H_full_like(a, v, dtype=None, order=None, subok=True, shape=None):
    k = a._kind if dtype is None and isinstance(a, SymArray) else _kind_of_dtype(dtype)
    return full(a.shape if shape is None else shape, coerce(v, k), k)

@handles(np.copy)
def H_copy(a, *x, **k): return asobj(a).copy()

@handles(np.array_equal)
def H_array_equal(a, b, **k):
    a = asobj(a); b = asobj(b)
    if a.shape != b.shape: return False
    return (a == b).all()

@handles(np.sort)
def H_sort(a, axis=-1, **k):
    a = unwrap(asobj(a))
    if a.ndim != 1: raise Unsupported("sort nd")
    v = list(a)
    n = len(v)
    for i in range(n):
        for j in range(n - 1 - i):
            lo, hi = smin(v[j], v[j + 1]), smax(v[j], v[j + 1])
            v[j], v[j + 1] = lo, hi
    o = np.empty(n, dtype=object); o[:] = v
    return wrap(o)

@handles(np.cumsum)
def H_cumsum(a, axis=None, **k):
    a = asobj(a)
    if axis is None: a = a.reshape(-1); axis = 0
    return apply_ufunc(np.add, "accumulate", (a,), None, dict(axis=axis))

@handles(np.cumprod)
def H_cumprod(a, axis=None, **k):
    a = asobj(a)
    if axis is None: a = a.reshape(-1); axis = 0
    return apply_ufunc(np.multiply, "accumulate", (a,), None, dict(axis=axis))

@handles(np.linalg.solve)
def H_solve(a, b): return la_solve(a, b)
@handles(np.linalg.inv)
def H_inv(a): return la_inv(a)
@handles(np.linalg.det)
def H_det(a): return la_det(unwrap(asobj(a)))
@handles(np.linalg.cholesky)
def H_chol(a): return la_cholesky(a)
@handles(np.linalg.norm)
def H_norm(a, ord=None, axis=None, keepdims=False):
    a = asobj(a)
    if axis is not None:
        if not isinstance(axis, (int, np.integer)): raise Unsupported("matrix norm over axes")
        b = np.moveaxis(unwrap(a), int(axis), -1)
        o = np.empty(b.shape[:-1], dtype=object)
        for pos in np.ndindex(*o.shape): o[pos] = H_norm(wrap(b[pos]), ord)
        o = wrap(o)
        return np.expand_dims(o, int(axis)) if keepdims else (o if o.ndim else o.item())
    b = unwrap(a)
    if ord is None or ord == "fro" or (b.ndim == 1 and ord == 2):
        v = b.reshape(-1)
        r = s_un("sqrt")(odot(v, v)) if v.size > 1 else (s_abs(_fx(v[0])) if v.size else 0)
    elif b.ndim == 1 and ord == 1: r = wrap(_map(s_abs, b)).sum()
    elif b.ndim == 1 and ord == np.inf: r = wrap(_map(s_abs, b)).max()
    elif b.ndim == 1 and ord == -np.inf: r = wrap(_map(s_abs, b)).min()
    elif b.ndim == 2 and ord == 1: r = wrap(_map(s_abs, b)).sum(axis=0).max()
    elif b.ndim == 2 and ord == np.inf: r = wrap(_map(s_abs, b)).sum(axis=1).max()
    else: raise Unsupported("norm")
    return wrap(np.full((1,) * b.ndim, r, dtype=object)) if keepdims else r
@handles(np.einsum)
def H_einsum(*ops, **kw):
    kw.pop("optimize", None)
    return wrap(np.einsum(*[unwrap(asobj(o)) if not isinstance(o, str) else o for o in ops], **unwrap(kw)))
@handles(np.result_type, np.promote_types)
def H_result_type(*a):
    return KDtype(_promote([x._kind if isinstance(x, SymArray) else (asobj(x)._kind if not isinstance(x, (type, np.dtype, KDtype)) else _kind_of_dtype(x)) for x in a]))
@handles(np.outer)
def H_outer(a, b, out=None):
    return apply_ufunc(np.multiply, "outer", (asobj(a).reshape(-1), asobj(b).reshape(-1)), None, {})
@handles(np.isclose)
def H_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a = asobj(a); b = asobj(b)
    shp = np.broadcast_shapes(a.shape, b.shape)
    rt, at = _fx(rtol), _fx(atol)
    def one(x, y):
        d = s_sub(x, y)
        if isinstance(d, (Rat, Ext)) and rt <= Fraction(1, 10000) and at <= Fraction(1, 10000): return d == 0       # rounding tolerances read as exact
        if is_num(y):
            tol = at + rt * abs(_fx(y))
            return s_and(s_le(d, tol), s_le(-_fx(d), tol))
        def side(e):           # e <= atol + rtol*|y|
            return s_or(s_le(e, at + rt * y), s_le(e, at - rt * y))
        return s_and(side(d), side(-_fx(d)))
    return wrap(_map2(one, np.broadcast_to(unwrap(a), shp), np.broadcast_to(unwrap(b), shp)), 'b')
@handles(np.allclose)
def H_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False): return H_isclose(a, b, rtol, atol).all()
@handles(np.count_nonzero)
def H_count_nonzero(a, axis=None, keepdims=False): return wrap(_map(_tb, unwrap(asobj(a))), 'b').sum(axis=axis)
@handles(np.linalg.multi_dot)
def H_multi_dot(l, out=None):
    r = asobj(l[0])
    for x in l[1:]: r = wrap(omatmul(unwrap(r), unwrap(asobj(x)))) if not (unwrap(r).ndim == 0) else r * x
    return r
@handles(np.vdot)
def H_vdot(a, b): return odot(unwrap(asobj(a)).reshape(-1), unwrap(asobj(b)).reshape(-1))
@handles(np.shape)
def H_shape(a): return asobj(a).shape
@handles(np.ndim)
def H_ndim(a): return asobj(a).ndim
@handles(np.size)
def H_size(a, axis=None): return asobj(a).size if axis is None else asobj(a).shape[axis]
@handles(np.tensordot)
def H_tensordot(a, b, axes=2):
    return wrap(np.tensordot(unwrap(asobj(a)), unwrap(asobj(b)), axes))
@handles(np.diff)
def H_diff(a, n=1, axis=-1, **k):
    a = asobj(a)
    for _ in range(n):
        a = np.moveaxis(a, axis, 0)
        a = a[1:] - a[:-1]
        a = np.moveaxis(a, 0, axis)
    return a
@handles(np.interp)
def H_interp(x, xp, fp, left=None, right=None, period=None):
    xp = [v for v in unwrap(asobj(xp))]; fp = [v for v in unwrap(asobj(fp))]
    lo = fp[0] if left is None else left
    hi = fp[-1] if right is None else right
    def one(v):
        r = hi
        r = ite(_tb(v == xp[-1]) if not isinstance(v == xp[-1], bool) else (v == xp[-1]), fp[-1], r)
        for i in reversed(range(len(xp) - 1)):
            seg = fp[i] + s_div(fp[i + 1] - fp[i], xp[i + 1] - xp[i]) * (v - xp[i])
            r = ite(v < xp[i + 1], seg, r)
        return ite(v < xp[0], lo, r)
    if not isinstance(x, np.ndarray) and not isinstance(x, (list, tuple)): return one(x)
    return wrap(_map(one, unwrap(asobj(x))))
@handles(np.linspace)
def H_linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    n = int(num)
    div = n - 1 if endpoint else n
    step = s_div(_fx(b) - _fx(a), div) if div > 0 else float('nan')
    o = np.empty(n, dtype=object)
    for i in range(n): o[i] = _fx(a) + i * step if i else _fx(a)
    if endpoint and n > 1: o[n - 1] = _fx(b)
    r = wrap(o)
    return (r, step) if retstep else r

@handles(np.take_along_axis)
def H_take_along_axis(a, idx, axis):
    a = asobj(a); idx = asobj(idx); ax = axis % a.ndim
    A, I = unwrap(a), unwrap(idx)
    if I.ndim != A.ndim: raise ValueError("take_along_axis indices rank")
    shp = tuple(I.shape[i] if i == ax else np.broadcast_shapes((A.shape[i],), (I.shape[i],))[0] for i in range(A.ndim))
    A = np.broadcast_to(A, tuple(A.shape[i] if i == ax else shp[i] for i in range(A.ndim))); I = np.broadcast_to(I, shp)
    out = np.empty(shp, dtype=object)
    for pos in np.ndindex(*shp):
        row = wrap(np.array([A[pos[:ax] + (j,) + pos[ax + 1:]] for j in range(A.shape[ax])], dtype=object))
        out[pos] = row[I[pos]]
    return wrap(out, a._kind)
@handles(np.unravel_index)
def H_unravel_index(indices, shape, order='C'):
    if order != 'C': raise Unsupported("unravel_index order")
    i = indices; out = []
    for d in reversed([int(d) for d in (shape if isinstance(shape, (tuple, list, np.ndarray)) else (shape,))]):
        out.append(i % d); i = i // d
    return tuple(reversed(out))
@handles(np.ravel_multi_index)
def H_ravel_multi_index(multi, dims, mode='raise', order='C'):
    if order != 'C' or mode != 'raise': raise Unsupported("ravel_multi_index options")
    r = 0
    for i, d in zip(multi, dims): r = r * int(d) + i
    return r
@handles(np.choose)
def H_choose(a, choices, out=None, mode='raise'):
    cs = [asobj(c) for c in choices]; a = asobj(a)
    shp = np.broadcast_shapes(a.shape, *[c.shape for c in cs])
    st = wrap(np.stack([np.broadcast_to(unwrap(c), shp) for c in cs]), _promote([c._kind for c in cs]))
    return H_take_along_axis(st, wrap(np.broadcast_to(unwrap(a), shp)[None], 'i'), 0)[0]
@handles(np.take)
def H_take(a, indices, axis=None, out=None, mode='raise'):
    if mode != 'raise' or out is not None: raise Unsupported("np.take options")
    a = asobj(a)
    if axis is None: a = a.reshape(-1); axis = 0
    return a[(slice(None),) * (int(axis) % a.ndim) + (indices if not isinstance(indices, (list, tuple)) else asobj(indices),)]
@handles(np.select)
def H_select(condlist, choicelist, default=0):
    if len(condlist) != len(choicelist): raise ValueError("list of cases must be same length as list of conditions")
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))): r = H_where(c, v, r)
    return r
@handles(np.linalg.pinv)
def H_pinv(a, *x, **k):
    """generic full rank (a structurally singular matrix is refused)"""
    A = unwrap(asobj(a))
    if A.ndim != 2: raise Unsupported("stacked pinv")
    m, n = A.shape
    if m == n: return la_inv(A)
    return wrap(omatmul(unwrap(la_inv(omatmul(A.T, A))), A.T) if m > n else omatmul(A.T, unwrap(la_inv(omatmul(A, A.T)))))
@handles(np.linalg.lstsq)
def H_lstsq(a, b, *x, **k):
    a = asobj(a); b = asobj(b)
    if a.shape[0] == a.shape[1]: s = la_solve(a, b)
    else: s = wrap(omatmul(unwrap(H_pinv(a)), unwrap(b)))
    return s, wrap(np.empty(0, dtype=object)), min(a.shape), None

class _Vectorize:
    def __init__(self, pyfunc=None, otypes=None, doc=None, excluded=None, cache=False, signature=None):
        if signature is not None or excluded: raise Unsupported("np.vectorize with a signature or exclusions")
        self.f = pyfunc; self.__name__ = getattr(pyfunc, "__name__", "vectorized")
    def __call__(self, *args, **kw):
        arrs = [asobj(x) for x in args]
        shp = np.broadcast_shapes(*[x.shape for x in arrs])
        bs = [np.broadcast_to(unwrap(x), shp) for x in arrs]
        outs, tup = None, False
        for pos in np.ndindex(*shp):
            r = self.f(*[x[pos] for x in bs], **kw)
            tup = isinstance(r, tuple); r = r if tup else (r,)
            if outs is None: outs = [np.empty(shp, dtype=object) for _ in r]
            for o, v in zip(outs, r): o[pos] = v.item() if isinstance(v, np.ndarray) else v
        outs = [wrap(o) if shp else o.item() for o in outs or []]
        return tuple(outs) if tup else outs[0]

class _Concatenator:
    """np.r_ / np.c_ without directives"""
    def __init__(self, col): self.col = col
    def __getitem__(self, key):
        if not isinstance(key, tuple): key = (key,)
        parts = []
        for k in key:
            if isinstance(k, str): raise Unsupported("directive in np.r_/np.c_")
            if isinstance(k, slice):
                st, en, sp = k.start or 0, k.stop, 1 if k.step is None else k.step
                a = H_linspace(st, en, int(abs(sp))) if isinstance(sp, complex) else wrap(to_obj(np.arange(st, en, sp)), 'i' if all(isinstance(z, int) for z in (st, en, sp)) else 'f')
            else: a = asobj(k)
            if a.ndim == 0: a = a.reshape(1)
            if self.col and a.ndim == 1: a = a.reshape(-1, 1)
            parts.append(a)
        return wrap(np.concatenate([unwrap(x) for x in parts], axis=-1 if self.col else 0), _promote([x._kind for x in parts]))

for _n in ("min", "max", "amin", "amax", "argmin", "argmax", "sum", "prod", "any", "all", "mean"):
    def _mk(n):
        m = {"amin": "min", "amax": "max"}.get(n, n)
        def h(a, *args, **kw):
            kw = {k: v for k, v in kw.items() if v is not np._NoValue and v is not None or k == "axis"}
            return getattr(asobj(a), m)(*args, **kw)
        return h
    HANDLERS[getattr(np, _n)] = _mk(_n)

# constructors
def _zero(k): return False if k == 'b' else 0

def full(shape, v, k='f'):
    if isinstance(shape, (int, np.integer)): shape = (int(shape),)
    if isinstance(shape, np.ndarray): shape = tuple(int(s) for s in shape)
    shape = tuple(int(s) for s in shape)
    o = np.empty(shape, dtype=object)
    if isinstance(v, (np.ndarray, list, tuple)): o[...] = unwrap(asobj(v))
    else:
        if isinstance(v, (float, np.floating)) and not (_math.isinf(v) or _math.isnan(v)): v = cval(float(v))
        o.fill(v)
    return wrap(o, k)

class UfuncShim:
    def __init__(self, uf): self._uf = uf; self.__name__ = uf.__name__
    def __call__(self, *a, **kw):
        out = kw.pop("out", None)
        nin = self._uf.nin
        if len(a) > nin: out = a[nin]; a = a[:nin]
        if out is not None and not isinstance(out, tuple): out = (out,)
        return apply_ufunc(self._uf, "__call__", a, out, kw)
    def reduce(self, a, axis=0, **kw): return apply_ufunc(self._uf, "reduce", (a,), None, dict(axis=axis, **kw))
    def accumulate(self, a, axis=0, **kw): return apply_ufunc(self._uf, "accumulate", (a,), None, dict(axis=axis))
    def outer(self, a, b): return apply_ufunc(self._uf, "outer", (a, b), None, {})
    def at(self, *a): raise Unsupported("ufunc.at")

class NumpyShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        d = self.__dict__
        for n in list(UF) + ["matmul"]:
            if hasattr(np, n): d[n] = UfuncShim(getattr(np, n))
        d["abs"] = d["absolute"]
        d["zeros"] = lambda shape, dtype=float, order='C', **k: full(shape, _zero(_kind_of_dtype(dtype)), _kind_of_dtype(dtype))
        d["empty"] = d["zeros"]
        d["ones"] = lambda shape, dtype=float, order='C', **k: full(shape, True if _kind_of_dtype(dtype) == 'b' else 1, _kind_of_dtype(dtype))
        def _full(shape, v, dtype=None, order='C', **k):
            kk = _kind_of_dtype(dtype) if dtype is not None else asobj(v)._kind
            return full(shape, coerce(v, kk), kk)
        d["full"] = _full
        def _eye(n, m=None, k=0, dtype=float, order='C', **kw):
            return wrap(to_obj(np.eye(int(n), None if m is None else int(m), int(k), dtype=int)), _kind_of_dtype(dtype))
        d["eye"] = _eye
        d["identity"] = lambda n, dtype=float: _eye(n, dtype=dtype)
        def _array(x, dtype=None, copy=True, **kw):
            a = asobj(x)
            if a is x: a = a.copy()
            if dtype is not None: a = a.astype(dtype)
            return a
        d["array"] = _array
        def _asarray(x, dtype=None, **kw):
            a = asobj(x)
            if dtype is not None and _kind_of_dtype(dtype) != a._kind: a = a.astype(dtype)
            return a
        d["asarray"] = _asarray; d["asanyarray"] = _asarray; d["ascontiguousarray"] = _asarray
        def _arange(*a, dtype=None, **kw):
            if any(is_sym(x) and not (isinstance(x, Rat) and x.is_const()) for x in a): raise Unsupported("arange with symbolic bounds")
            if all(isinstance(x, (int, np.integer)) for x in a): return wrap(np.arange(*[int(x) for x in a]), 'i')
            vals = [zsym.to_frac(x.value()) if isinstance(x, Rat) else zsym.to_frac(x) for x in a]
            start, stop, step = (0, vals[0], 1) if len(vals) == 1 else (vals[0], vals[1], vals[2] if len(vals) > 2 else 1)
            n = max(0, _math.ceil((stop - start) / step))
            # float semantics of the real function decide how many points there are
            nf = len(np.arange(*[float(x.value()) if isinstance(x, Rat) else float(x) for x in a]))
            o = np.empty(nf, dtype=object)
            for i in range(nf): o[i] = cval(start + i * step) if False else _c(start + i * step)
            return wrap(o)
        d["arange"] = _arange
        for f in (np.zeros_like, np.ones_like, np.empty_like, np.full_like, np.linspace, np.interp, np.where, np.dot, np.clip,
                  np.min, np.max, np.amin, np.amax, np.argmin, np.argmax, np.sum, np.prod, np.any, np.all, np.mean, np.copy,
                  np.array_equal, np.isclose, np.allclose, np.count_nonzero, np.vdot, np.cumprod, np.sort, np.cumsum, np.einsum, np.outer, np.diff, np.inner, np.shape, np.ndim, np.size, np.tensordot, np.result_type):
            d[f.__name__] = HANDLERS[f]
        d["linalg"] = LinalgShim(np.linalg, "numpy.linalg")
        d["random"] = np.random
        d["ndarray"] = np.ndarray
        d["isscalar"] = lambda x: not isinstance(x, np.ndarray) and not isinstance(x, (list, tuple))
        # functions that take sequences of arrays work through __array_function__; make sure plain lists are lifted
        for n in ("stack", "concatenate", "vstack", "hstack", "block", "column_stack", "expand_dims", "tile", "repeat",
                  "reshape", "transpose", "squeeze", "flip", "roll", "diag", "kron", "ravel", "atleast_1d", "atleast_2d",
                  "swapaxes", "moveaxis", "broadcast_to", "trace", "triu", "tril", "split", "array_split", "append", "take", "cross", "fliplr", "flipud", "rot90", "meshgrid", "delete", "insert", "dstack"):
            d[n] = _lifted(getattr(np, n))
        d["r_"] = _Concatenator(False); d["c_"] = _Concatenator(True)
        d["vectorize"] = _Vectorize
        d["select"] = H_select
        d["take_along_axis"] = H_take_along_axis; d["unravel_index"] = H_unravel_index; d["ravel_multi_index"] = H_ravel_multi_index; d["choose"] = H_choose
        d["divmod"] = lambda a, b: (asobj(a) // b, asobj(a) % b)
        d["issubdtype"] = lambda a, b: np.issubdtype(a.type if isinstance(a, KDtype) else a, b.type if isinstance(b, KDtype) else b)
        d["finfo"] = lambda t=None: np.finfo(np.float64)
        d["heaviside"] = lambda x, h0: H_where(asobj(x) < 0, 0, H_where(asobj(x) == 0, h0, 1))

    def __getattr__(self, name):
        return getattr(np, name)

def _c(fr):
    fr = Fraction(fr)
    return int(fr) if fr.denominator == 1 else (Rat.const(fr) if DOMAIN["rat"] else fr)

def _lifted(f):
    def g(*a, **k):
        def lift(x):
            if isinstance(x, np.ndarray): return asobj(x)
            if isinstance(x, _scalar_types): return asobj(x)
            if isinstance(x, list) and any(isinstance(i, (np.ndarray, list, tuple) + _scalar_types) for i in x): return [lift(i) for i in x]
            if isinstance(x, tuple) and any(isinstance(i, (np.ndarray, list, tuple) + _scalar_types) for i in x): return tuple(lift(i) for i in x)
            return x
        aa = tuple(lift(x) for x in a)
        kk = {n: lift(v) for n, v in k.items()}
        kinds = _kinds(aa)
        h = HANDLERS.get(f)
        if h: return h(*aa, **kk)
        kk = {k_: (object if k_ == "dtype" else v) for k_, v in kk.items()}
        kind = 'f' if (not kinds or 'f' in kinds) else ('i' if 'i' in kinds else 'b')
        args = unwrap(aa)
        if f in (np.diag, np.kron, np.tile, np.repeat, np.block, np.trace, np.triu, np.tril): pass
        return wrap(f(*args, **unwrap(kk)), kind)
    g.__name__ = f.__name__
    return g

# ---------------------------------------------------------------- linear algebra

def _sq(a):
    a = unwrap(asobj(a))
    if a.ndim < 2 or a.shape[-1] != a.shape[-2]: raise ValueError("expected a square matrix")
    return a

def _iszero(x):
    if isinstance(x, Rat): return not x.num
    if isinstance(x, (RealT, Ext)): return False
    return x == 0

def la_det(a):
    n = a.shape[0]
    if n == 1: return a[0, 0]
    if n == 2: return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    # expansion along the row/col with most zeros
    r = max(range(n), key=lambda i: sum(_iszero(x) for x in a[i]))
    s = 0
    for j in range(n):
        if _iszero(a[r, j]): continue
        m = np.delete(np.delete(a, r, 0), j, 1)
        t = a[r, j] * la_det(m)
        s = s + t if (r + j) % 2 == 0 else s - t
    return s

def _complexity(x):
    if isinstance(x, Rat) and poly.TRUNC is not None and not any(not (m >> poly.TRUNC[0]) & poly.MASK for m in x.num): return 1 << 40
    if isinstance(x, Rat): return (len(x.num) + 3 * len(x.den) if not x.is_const() else 0)
    return 0

def osolve(a, b):
    """exact solution of a x = b for object arrays, b 2-d."""
    n = a.shape[0]
    allc = all(isinstance(x, (int, Fraction, float)) or (isinstance(x, Rat) and x.is_const()) for x in a.reshape(-1))
    if not allc and n <= 3 and n > 1 or n == 1:
        d = la_det(a)
        if _iszero(d): raise np.linalg.LinAlgError("Matrix is singular.")
        if n == 1:
            return _map(lambda y: s_div(y, a[0, 0]), b)
        adj = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                c = la_det(np.delete(np.delete(a, i, 0), j, 1))
                adj[j, i] = c if (i + j) % 2 == 0 else -c
        x = omatmul(adj, b)
        dd = s_div(1, d) if not isinstance(d, Rat) else d.inv()
        return _map(lambda y: s_mul(y, dd) if not _iszero(y) else 0, x)
    A = a.copy(); B = b.copy()
    rows = list(range(n)); perm = []
    for c in range(n):
        cand = [r for r in range(c, n) if not _iszero(A[r, c])]
        if not cand: raise np.linalg.LinAlgError("Matrix is singular.")
        p = min(cand, key=lambda r: _complexity(A[r, c]))
        if p != c:
            A[[c, p]] = A[[p, c]]; B[[c, p]] = B[[p, c]]
        ip = s_div(1, A[c, c])
        for r in range(n):
            if r == c or _iszero(A[r, c]): continue
            f = s_mul(A[r, c], ip)
            for k in range(c, n):
                if not _iszero(A[c, k]): A[r, k] = A[r, k] - s_mul(f, A[c, k])
            for k in range(B.shape[1]):
                if not _iszero(B[c, k]): B[r, k] = B[r, k] - s_mul(f, B[c, k])
        for k in range(c, n): A[c, k] = s_mul(A[c, k], ip) if not _iszero(A[c, k]) else 0
        for k in range(B.shape[1]): B[c, k] = s_mul(B[c, k], ip) if not _iszero(B[c, k]) else 0
    return B

def _use_triangle(a, lower):
    n = a.shape[0]
    o = a.copy()
    for i in range(n):
        for j in range(n):
            if (i > j) if not lower else (i < j): o[i, j] = a[j, i]
    return o

def la_solve(a, b, lower=False, overwrite_a=False, overwrite_b=False, check_finite=True, assume_a='gen', transposed=False):
    A = unwrap(asobj(a)); Bm = unwrap(asobj(b))
    if A.ndim == 0: A = A.reshape(1, 1)
    if A.ndim > 2:
        shp = A.shape[:-2]
        out = np.empty(np.broadcast_shapes(shp, Bm.shape[:-2]) + Bm.shape[-2:], dtype=object)
        for pos in np.ndindex(*shp): out[pos] = unwrap(la_solve(A[pos], Bm[pos]))
        return wrap(out)
    if A.shape[0] != A.shape[1]: raise ValueError("Input a needs to be a square matrix.")
    if Bm.ndim == 0: Bm = Bm.reshape(1)
    if A.shape[0] != Bm.shape[0]: raise ValueError("Input b has to have same number of rows as input a")
    if assume_a in ('sym', 'pos', 'her', 'symmetric', 'positive definite'):
        A = _use_triangle(A, lower)
    if transposed: A = A.T
    if Bm.ndim == 1: return wrap(osolve(A, Bm.reshape(-1, 1))[:, 0])
    return wrap(osolve(A, Bm))

def la_inv(a, **k):
    A = _sq(a)
    if A.ndim > 2:
        out = np.empty(A.shape, dtype=object)
        for pos in np.ndindex(*A.shape[:-2]): out[pos] = unwrap(la_inv(A[pos]))
        return wrap(out)
    return wrap(osolve(A, to_obj(np.eye(A.shape[0], dtype=int))))

class Factored:
    def __init__(self, A, kind, lower=False): self.A = A; self.kind = kind; self.lower = lower
    @property
    def shape(self): return self.A.shape
def la_lu_factor(a, **k):
    A = _sq(a)
    osolve(A, to_obj(np.eye(A.shape[0], dtype=int))[:, :1]) if A.shape[0] == 1 else None
    return (Factored(A, "lu"), _Piv())
class _Piv: pass
def la_lu_solve(lu_piv, b, trans=0, **k):
    F, _ = lu_piv
    A = F.A if trans == 0 else F.A.T
    return la_solve(A, b)
def la_cho_factor(a, lower=False, **k):
    return (Factored(_use_triangle(_sq(a), lower), "cho", lower), lower)
def la_cho_solve(c_low, b, **k):
    F, low = c_low
    if not isinstance(F, Factored): raise Unsupported("cho_solve on a plain matrix")
    if bool(low) != bool(F.lower): raise Unsupported("cho_solve with the other triangle")
    return la_solve(F.A, b)

def ocholesky(A):
    """lower Cholesky factor (entries may be square-root extensions)."""
    n = A.shape[0]
    L = np.empty((n, n), dtype=object); L.fill(0)
    for j in range(n):
        s = A[j, j]
        for k in range(j): s = s - L[j, k] * L[j, k]
        d = s_un("sqrt")(s)
        L[j, j] = d
        inv = s_div(1, d) if not isinstance(d, (Ext, Rat)) else d.inv()
        for i in range(j + 1, n):
            t = A[i, j]
            for k in range(j): t = t - L[i, k] * L[j, k]
            L[i, j] = t * inv
    return L

def la_cholesky(a, lower=None, **k):
    A = _sq(a)
    if lower is None: return wrap(ocholesky(_use_triangle(A, True)))      # numpy.linalg
    L = ocholesky(_use_triangle(A, lower))
    return wrap(L if lower else L.T)

def osolve_tri(A, B, lower):
    n = A.shape[0]
    X = np.empty(B.shape, dtype=object)
    order = range(n) if lower else reversed(range(n))
    for i in order:
        ip = s_div(1, A[i, i]) if not isinstance(A[i, i], (Ext, Rat)) else A[i, i].inv()
        for c in range(B.shape[1]):
            t = B[i, c]
            for k in (range(i) if lower else range(i + 1, n)):
                if not _iszero(A[i, k]): t = t - A[i, k] * X[k, c]
            X[i, c] = t * ip
    return X

def la_solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, **k):
    A = _sq(a); B = unwrap(asobj(b))
    if trans in (1, 'T', 2, 'C'): A = A.T; lower = not lower
    one = B.ndim == 1
    X = osolve_tri(A, B.reshape(-1, 1) if one else B, lower)
    return wrap(X[:, 0] if one else X)

EXPM = {"fn": None}
def la_expm(A):
    if EXPM["fn"] is None: raise Unsupported("expm")
    return EXPM["fn"](A)

def la_block_diag(*arrs):
    bs = [np.atleast_2d(unwrap(asobj(a))) for a in arrs]
    out = np.zeros((sum(b.shape[0] for b in bs), sum(b.shape[1] for b in bs)), dtype=object)
    r = c = 0
    for b in bs:
        out[r:r + b.shape[0], c:c + b.shape[1]] = b
        r += b.shape[0]; c += b.shape[1]
    return wrap(out)

class LinalgShim(types.ModuleType):
    def __init__(self, real, name):
        super().__init__(name)
        self._real = real
        d = self.__dict__
        d.update(solve=la_solve, inv=la_inv, lu_factor=la_lu_factor, lu_solve=la_lu_solve, cho_factor=la_cho_factor,
                 cho_solve=la_cho_solve, solve_triangular=la_solve_triangular, expm=la_expm, block_diag=la_block_diag,
                 det=lambda a: la_det(unwrap(asobj(a))), norm=H_norm, pinv=H_pinv, lstsq=H_lstsq, LinAlgError=np.linalg.LinAlgError)
        d["multi_dot"] = H_multi_dot
        def _mpow(a, n):
            a = asobj(a)
            if n < 0: a = la_inv(a); n = -n
            r = wrap(to_obj(np.eye(a.shape[0], dtype=int)))
            for _ in range(int(n)): r = r @ a
            return r
        d["matrix_power"] = _mpow
        if name == "numpy.linalg":
            d["cholesky"] = lambda a: la_cholesky(a)
            d["solve"] = lambda a, b: la_solve(a, b)
        else:
            d["cholesky"] = lambda a, lower=False, **k: la_cholesky(a, lower)
    def __getattr__(self, name):
        if name.startswith("__"): raise AttributeError(name)
        f = getattr(self._real, name)
        def g(*a, **k):
            if name in ("cond", "matrix_rank", "eigvals", "eigvalsh", "slogdet"):        # used in guards only
                c = [np.asarray(_map(lambda v: float(v.value()) if isinstance(v, Rat) and v.is_const() else (float(v) if is_num(v) else None), unwrap(asobj(x)))) if isinstance(x, np.ndarray) else x for x in a]
                if not any(isinstance(x, np.ndarray) and any(v is None for v in x.reshape(-1)) for x in c):
                    return f(*[x.astype(float) if isinstance(x, np.ndarray) else x for x in c], **k)
            raise Unsupported(f"{self.__name__}.{name}")
        return g if callable(f) and not isinstance(f, type) else f

class MathShim(types.ModuleType):
    """math functions on possibly symbolic scalars."""
    def __init__(self):
        super().__init__("math")
    def __getattr__(self, name):
        real = getattr(_math, name)
        if not callable(real): return real
        def g(*a):
            if any(is_sym(x) for x in a):
                if len(a) == 1:
                    if name in ("floor", "ceil", "trunc"):
                        return {"floor": s_floor, "ceil": s_ceil, "trunc": s_trunc}[name](a[0])
                    return s_un({"fabs": "abs"}.get(name, name))(a[0]) if name != "fabs" else abs(a[0])
                if name == "pow": return s_pow(*a)
                raise Unsupported("math." + name)
            return real(*a)
        return g

# ---------------------------------------------------------------- source loader

class _Merge(ast.NodeTransformer):
    """turn simple `if` statements and conditional expressions on symbolic conditions into merges (no forking);
    record every function entered."""
    def __init__(self, modname=""): self.n = 0; self.stack = [modname]
    def visit_ClassDef(self, node):
        self.stack.append(node.name); self.generic_visit(node); self.stack.pop()
        return node
    def visit_FunctionDef(self, node):
        self.stack.append(node.name); name = ".".join(self.stack)
        self.generic_visit(node)
        self.stack.pop()
        enter = ast.parse(f"__sym__.enter({name!r})").body[0]
        body = node.body
        at = 1 if (body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str)) else 0
        node.body = body[:at] + [enter] + body[at:]
        return node
    def _simple(self, body):
        for s in body:
            if isinstance(s, ast.Pass): continue
            if isinstance(s, (ast.Assign,)):
                if len(s.targets) != 1: return False
                t = s.targets[0]
                if not isinstance(t, (ast.Name, ast.Subscript)): return False
            elif isinstance(s, ast.AugAssign):
                if not isinstance(s.target, (ast.Name, ast.Subscript)): return False
            else: return False
        return True
    def visit_If(self, node):
        self.generic_visit(node)
        if not (self._simple(node.body) and self._simple(node.orelse)): return node
        self.n += 1
        c = f"__c{self.n}"
        def load(t):
            t2 = ast.parse(ast.unparse(t), mode="eval").body
            return t2
        def lam(e): return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)
        def conv(body, cond):
            out = []
            for s in body:
                if isinstance(s, ast.Pass): continue
                if isinstance(s, ast.Assign): t, e = s.targets[0], s.value
                else:
                    t = s.target
                    e = ast.BinOp(left=load(t), op=s.op, right=s.value)
                call = ast.Call(func=ast.Attribute(value=ast.Name("__sym__", ast.Load()), attr="merge", ctx=ast.Load()),
                                args=[cond, lam(e), lam(load(t))], keywords=[])
                out.append(ast.Assign(targets=[t], value=call))
            return out
        cn = ast.Name(c, ast.Load())
        import copy as _c
        merged = conv(_c.deepcopy(node.body), cn) + conv(_c.deepcopy(node.orelse), ast.Call(func=ast.Attribute(value=ast.Name("__sym__", ast.Load()), attr="lnot", ctx=ast.Load()), args=[cn], keywords=[]))
        if not merged: merged = [ast.Pass()]
        a0 = ast.Assign(targets=[ast.Name(c, ast.Store())], value=node.test)
        test = ast.Call(func=ast.Attribute(value=ast.Name("__sym__", ast.Load()), attr="is_cond", ctx=ast.Load()), args=[cn], keywords=[])
        plain = ast.If(test=cn, body=node.body, orelse=node.orelse)
        handler = ast.ExceptHandler(type=ast.Attribute(value=ast.Name("__sym__", ast.Load()), attr="MergeFail", ctx=ast.Load()), name=None, body=[_c.deepcopy(plain)])
        tr = ast.Try(body=merged, handlers=[handler], orelse=[], finalbody=[])
        # a merge that fails after its first assignment would leave a mixed state: only single assignments may fall back
        if len(merged) == 1: inner = [tr]
        else:
            pre = ast.Call(func=ast.Attribute(value=ast.Name("__sym__", ast.Load()), attr="probe", ctx=ast.Load()),
                           args=[cn, ast.List(elts=[lam(load(s.targets[0] if isinstance(s, ast.Assign) else s.target)) for s in node.body + node.orelse if not isinstance(s, ast.Pass)], ctx=ast.Load()),
                                 ast.List(elts=[lam(_c.deepcopy(s.value)) for s in node.body + node.orelse if not isinstance(s, ast.Pass)], ctx=ast.Load())], keywords=[])
            inner = [ast.If(test=pre, body=merged, orelse=[_c.deepcopy(plain)])]
        return [a0, ast.If(test=test, body=inner, orelse=[plain])]
    def visit_IfExp(self, node):
        self.generic_visit(node)
        def lam(e): return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)
        return ast.Call(func=ast.Attribute(value=ast.Name("__sym__", ast.Load()), attr="ifexp", ctx=ast.Load()),
                        args=[node.test, lam(node.body), lam(node.orelse)], keywords=[])

CALLS = {}

class SymHooks:
    class MergeFail(Exception): pass
    @staticmethod
    def enter(name): CALLS[name] = CALLS.get(name, 0) + 1
    @staticmethod
    def is_cond(c):
        if isinstance(c, SymArray) and c.size == 1: c = c.view(np.ndarray).reshape(-1)[0]
        return isinstance(c, (BoolT,)) and MERGE["on"]
    @staticmethod
    def lnot(c):
        if isinstance(c, SymArray) and c.size == 1: c = c.view(np.ndarray).reshape(-1)[0]
        return lnot(c)
    @staticmethod
    def merge(c, fe, fo):
        if isinstance(c, SymArray) and c.size == 1: c = c.view(np.ndarray).reshape(-1)[0]
        try:
            a = fe()
            b = fo()
            return ite(c, a, b)
        except (CannotMerge, NameError, UnboundLocalError, IndexError, ZeroDivisionError, TypeError, AttributeError):
            raise SymHooks.MergeFail()
    @staticmethod
    def probe(c, tgts, vals):
        try:
            for f in tgts: f()
            olds = [f() for f in tgts]; news = [f() for f in vals]
            if isinstance(c, SymArray) and c.size == 1: c = c.view(np.ndarray).reshape(-1)[0]
            for a, b in zip(news, olds): ite(c, a, b)
            return True
        except (CannotMerge, NameError, UnboundLocalError, IndexError, ZeroDivisionError, TypeError, AttributeError):
            return False
    @staticmethod
    def ifexp(c, fa, fb):
        if SymHooks.is_cond(c):
            if isinstance(c, SymArray): c = c.view(np.ndarray).reshape(-1)[0]
            try:
                return ite(c, fa(), fb())
            except CannotMerge:
                pass
        return fa() if c else fb()

MERGE = {"on": True}
_MODS = {}
_NP = None

def b_min(*a, **k):
    if k or not a: return builtins.min(*a, **k)
    seq = list(a[0]) if len(a) == 1 else list(a)
    if any(is_sym(x) for x in seq): return _foldl(lambda p, q: ite(q < p, q, p), seq, None)
    return builtins.min(*a)
def b_max(*a, **k):
    if k or not a: return builtins.max(*a, **k)
    seq = list(a[0]) if len(a) == 1 else list(a)
    if any(is_sym(x) for x in seq): return _foldl(lambda p, q: ite(q > p, q, p), seq, None)
    return builtins.max(*a)
def b_int(x=0, *a):
    if isinstance(x, FInt): return x
    if isinstance(x, (RealT,)): return x.trunc()
    if isinstance(x, SymArray) and x.size == 1 and isinstance(x.item(), FInt): return x.item()
    return int(x, *a)
class _FloatMeta(type):
    def __instancecheck__(cls, o): return isinstance(o, float) or isinstance(o, (RealT, Rat))
def b_float(x=0.0):
    if is_sym(x): return x.as_real() if isinstance(x, FInt) else x
    if isinstance(x, SymArray) and x.size == 1: return b_float(x.item())
    return float(x)

def load(modname, extra=None):
    """symbolically executable copy of parallel_control.<modname> from /repo's current source."""
    global _NP
    if _NP is None: _NP = NumpyShim()
    if modname in _MODS: return _MODS[modname]
    path = os.path.join(REPO, "parallel_control", modname + ".py")
    src = open(path).read()
    tree = ast.parse(src, path)
    tree = _Merge(modname).visit(tree)
    ast.fix_missing_locations(tree)
    mod = types.ModuleType("symrepo." + modname)
    mod.__file__ = path
    _MODS[modname] = mod
    bi = dict(builtins.__dict__)
    bi["__import__"] = _sym_import
    bi["min"] = b_min; bi["max"] = b_max
    mod.__dict__["__builtins__"] = bi
    mod.__dict__["__sym__"] = SymHooks
    mod.__dict__["int"] = _IntType
    mod.__dict__["float"] = _FloatType
    exec(compile(tree, path, "exec"), mod.__dict__)
    return mod

class _IntMeta(type):
    def __instancecheck__(cls, o): return isinstance(o, int)
    def __call__(cls, *a): return b_int(*a)
class _IntType(int, metaclass=_IntMeta): pass
class _FMeta(type):
    def __instancecheck__(cls, o): return isinstance(o, float)
    def __call__(cls, *a): return b_float(*a)
class _FloatType(float, metaclass=_FMeta): pass

EXTRA_IMPORTS = {}

def _sym_import(name, globals=None, locals=None, fromlist=(), level=0):
    if name in EXTRA_IMPORTS:
        m = EXTRA_IMPORTS[name]
        return (m[1] if fromlist else m[0]) if isinstance(m, tuple) else m
    if name == "numpy": return _NP
    if name == "numpy.linalg": return _NP.linalg if fromlist else _NP
    if name == "math": return _MATH
    if name == "scipy":
        return _SCIPY
    if name == "scipy.linalg":
        return _SCIPY.linalg if fromlist else _SCIPY
    if name == "parallel_control":
        m = types.ModuleType("parallel_control")
        for f in fromlist or ():
            setattr(m, f, load(f))
        return m
    if name.startswith("parallel_control."):
        sub = load(name.split(".", 1)[1])
        if fromlist: return sub
        m = types.ModuleType("parallel_control")
        setattr(m, name.split(".", 1)[1], sub)
        return m
    return importlib.__import__(name, globals, locals, fromlist, level)

class _Scipy(types.ModuleType):
    def __init__(self):
        super().__init__("scipy")
        import scipy.linalg
        self.linalg = LinalgShim(scipy.linalg, "scipy.linalg")
    def __getattr__(self, name):
        if name.startswith("__"): raise AttributeError(name)
        import importlib as il
        try: return il.import_module("scipy." + name)
        except ImportError: raise AttributeError(name)
_SCIPY = _Scipy()
_MATH = MathShim()

def loaded():
    return {k: v.__file__ for k, v in _MODS.items()}

def arr(x, kind='f'):
    """symbolic array from nested lists / arrays."""
    a = asobj(x)
    a = a.copy() if a is x else a
    a._kind = kind
    return a
