"""Symbolic stand-in for the parts of jax the repository uses; derivatives are exact derivatives of the executed code."""
import types, itertools
import numpy as np
import math
import scipy.linalg as _sl
from . import symnp, poly, zsym
from .zsym import Unsupported, FInt, ite, is_num
from .poly import Rat
from .symnp import asobj, unwrap, wrap, _map

_DEPTH = [0]
def tmap(f, *ts):
    a = ts[0]
    if isinstance(a, tuple): return tuple(tmap(f, *[t[i] for t in ts]) for i in range(len(a)))
    if isinstance(a, list): return [tmap(f, *[t[i] for t in ts]) for i in range(len(a))]
    if isinstance(a, dict): return {k: tmap(f, *[t[k] for t in ts]) for k in a}
    if a is None: return None
    return f(*ts)
def leaves(t):
    if isinstance(t, (tuple, list)): return [l for i in t for l in leaves(i)]
    if isinstance(t, dict): return [l for i in t.values() for l in leaves(i)]
    return [] if t is None else [t]
def _stack(*xs):
    if not xs: return asobj([])
    o = [asobj(x) for x in xs]
    return wrap(np.stack([unwrap(i) for i in o]), o[0]._kind)

def scan(f, init, xs=None, length=None, reverse=False, unroll=1, **kw):
    ls = leaves(xs)
    ns = [asobj(l).shape[0] for l in ls]
    if ns and any(n != ns[0] for n in ns): raise ValueError(f"scan got values with different leading axis sizes: {', '.join(map(str, ns))}.")
    n = ns[0] if ns else int(length)
    if length is not None and n != int(length): raise ValueError("scan length")
    c, ys = init, []
    order = range(n - 1, -1, -1) if reverse else range(n)
    for i in order:
        c2, y = f(c, tmap(lambda l: asobj(l)[i], xs))
        if [asobj(l).shape for l in leaves(c2)] != [asobj(l).shape for l in leaves(c)]: raise TypeError("scan carry changes its shape")
        c = c2; ys.append(y)
    if reverse: ys.reverse()
    return c, (tmap(_stack, *ys) if ys else None)
def fori_loop(a, b, f, x):
    for i in range(int(a), int(b)): x = f(i, x)
    return x
def while_loop(c, f, x):
    while c(x): x = f(x)
    return x
def cond(p, t, f, *ops): return t(*ops) if p else f(*ops)

def lmap(f, xs, **kw):
    n = asobj(leaves(xs)[0]).shape[0]
    return tmap(_stack, *[f(tmap(lambda l: asobj(l)[i], xs)) for i in range(n)])
def switch(i, branches, *ops):
    n = len(branches)
    if isinstance(i, Rat): i = i.__index__()
    if isinstance(i, (int, np.integer)): return branches[min(max(int(i), 0), n - 1)](*ops)
    for k in range(n - 1):
        if i <= k: return branches[k](*ops)
    return branches[-1](*ops)
def dynamic_slice(a, starts, sizes):
    a = asobj(a); key = []
    for st, sz, d in zip(starts, sizes, a.shape):
        st = asobj(st).item() if isinstance(st, np.ndarray) else st
        if not isinstance(st, (int, np.integer)): raise Unsupported("dynamic_slice with a symbolic start")
        st = int(st) + (d if st < 0 else 0)
        key.append(slice(min(max(st, 0), d - sz), min(max(st, 0), d - sz) + sz))
    return a[tuple(key)]
def dynamic_slice_in_dim(a, start, size, axis=0):
    a = asobj(a); ax = axis % a.ndim
    return dynamic_slice(a, [start if i == ax else 0 for i in range(a.ndim)], [size if i == ax else n for i, n in enumerate(a.shape)])
def dynamic_index_in_dim(a, i, axis=0, keepdims=True):
    r = dynamic_slice_in_dim(a, i, 1, axis)
    return r if keepdims else np.squeeze(r, axis)
def dynamic_update_slice(a, u, starts):
    a = asobj(a).copy(); u = asobj(u); key = []
    for st, sz, d in zip(starts, u.shape, a.shape):
        if not isinstance(st, (int, np.integer)): raise Unsupported("dynamic_update_slice with a symbolic start")
        st = min(max(int(st) + (d if st < 0 else 0), 0), d - sz)
        key.append(slice(st, st + sz))
    a[tuple(key)] = u
    return a
def associative_scan(fn, elems, reverse=False, axis=0):
    if axis != 0: raise Unsupported("associative_scan axis")
    n = asobj(leaves(elems)[0]).shape[0]
    at = lambda i: tmap(lambda l: asobj(l)[i:i + 1], elems)
    out = [None] * n; acc = None
    for i in (range(n - 1, -1, -1) if reverse else range(n)):
        acc = at(i) if acc is None else fn(acc, at(i))       # jax flips, scans forward with fn and flips back: fn(later, earlier) for reverse
        out[i] = acc
    return tmap(lambda *l: wrap(np.concatenate([unwrap(asobj(x)) for x in l], axis=0), asobj(l[0])._kind), *out)

def vmap(f, in_axes=0, out_axes=0, **kw):
    if kw: raise Unsupported("vmap options")
    def g(*a, **named):
        ax = in_axes if isinstance(in_axes, (tuple, list)) else (in_axes,) * len(a)
        if any(not (i is None or isinstance(i, int)) for i in ax): raise Unsupported("vmap axes")
        lead = lambda l, i: wrap(np.moveaxis(unwrap(asobj(l)), i, 0), asobj(l)._kind)
        ns = [lead(l, i).shape[0] for x, i in zip(a, ax) if i is not None for l in leaves(x)] + [asobj(l).shape[0] for l in leaves(named)]
        if not ns: raise ValueError("vmap wrapped function must be passed at least one argument containing an array")
        if any(n != ns[0] for n in ns): raise ValueError("vmap got inconsistent sizes for array axes to be mapped")
        rs = [f(*[tmap(lambda l: lead(l, i)[k], x) if i is not None else x for x, i in zip(a, ax)],
                **{n: tmap(lambda l: asobj(l)[k], x) for n, x in named.items()}) for k in range(ns[0])]
        st = lambda o: (lambda *xs: _stack(*xs) if o == 0 else wrap(np.moveaxis(unwrap(_stack(*xs)), 0, o), asobj(xs[0])._kind))
        if isinstance(out_axes, (tuple, list)): return tuple(tmap(st(o), *[r[j] for r in rs]) for j, o in enumerate(out_axes))
        return tmap(st(out_axes), *rs)
    return g

def jac(f, argnums=0, has_aux=False, **kw):
    if has_aux or any(v for v in kw.values()): raise Unsupported("jacobian options")
    if isinstance(argnums, (tuple, list)): return lambda *a: tuple(jac(f, i)(*a) for i in argnums)
    def g(*args):
        k = argnums % len(args)
        x = args[k]
        if isinstance(x, (tuple, list, dict)): raise Unsupported("derivative with respect to a tree")
        x = asobj(x); sh = x.shape; xv = list(unwrap(x).reshape(-1))
        d = _DEPTH[0]; _DEPTH[0] += 1
        try:
            zs = [poly.var(f"__jac{d}_{i}") for i in range(len(xv))]
            o = np.empty(len(zs), dtype=object); o[:] = zs
            y = f(*args[:k], wrap(o.reshape(sh)) if sh else zs[0], *args[k + 1:])
        finally: _DEPTH[0] -= 1
        env = {poly.v_index(z): Rat.lift(symnp._fx(v)) for z, v in zip(zs, xv)}
        def one(y):
            ys = unwrap(asobj(y)); out = np.empty(ys.shape + (len(zs),), dtype=object)
            for pos in np.ndindex(*ys.shape):
                for j, z in enumerate(zs):
                    v = ys[pos]
                    out[pos + (j,)] = poly.compose(poly.diff(v, z), env) if isinstance(v, Rat) else _const(v)
            r = wrap(out.reshape(ys.shape + sh))
            return r if r.ndim else r.item()
        return tmap(one, y)
    return g
def jvp(f, primals, tangents):
    y = f(*primals); t = None
    for i, (p, v) in enumerate(zip(primals, tangents)):
        J = asobj(jac(f, i)(*primals)); v = asobj(v)
        d = wrap(np.tensordot(unwrap(J), unwrap(v), axes=v.ndim)) if v.ndim else J * v
        t = d if t is None else t + d
    return y, t
def _const(v):
    if isinstance(v, poly.Ext): raise Unsupported("derivative of a square root")
    return 0
def grad(f, argnums=0, **kw):
    j = jac(f, argnums, **kw)
    def g(*args):
        r = j(*args)
        for i, ri in zip(argnums if isinstance(argnums, (tuple, list)) else (argnums,), r if isinstance(argnums, (tuple, list)) else (r,)):
            if np.ndim(ri) != np.ndim(unwrap(asobj(args[i]))): raise TypeError("Gradient only defined for scalar-output functions.")
        return r
    return g
def value_and_grad(f, argnums=0, **kw): return lambda *a: (f(*a), grad(f, argnums, **kw)(*a))
def hessian(f, **kw): return jac(jac(f, **kw), **kw)

class Jnp(symnp.NumpyShim):
    def __init__(self):
        super().__init__()
        self.__name__ = "jax.numpy"
        d = self.__dict__
        d["float64"], d["float32"], d["int32"], d["int64"], d["bool_"] = np.float64, np.float32, np.int32, np.int64, np.bool_
        d["take_along_axis"] = lambda a, idx, axis=-1, **kw: symnp.H_take_along_axis(a, idx, axis)
        np_arange = d["arange"]
        def _arange(*a, dtype=None, **kw):
            v = [poly.Rat.lift(symnp._fx(x)) if isinstance(x, Rat) or (is_num(x) and not isinstance(x, (int, np.integer))) else x for x in a]
            if any(isinstance(x, Rat) and not x.is_const() for x in v):
                s, e, h = (0, v[0], 1) if len(v) == 1 else (v[0], v[1], v[2] if len(v) > 2 else 1)
                q = poly.Rat.lift(e - s) / h
                if not q.is_const(): raise Unsupported("arange with symbolic bounds")
                n = max(0, math.ceil(q.value()))       # the number of points in exact arithmetic
                o = np.empty(n, dtype=object)
                for i in range(n): o[i] = s + h * i
                return wrap(o)
            r = np_arange(*a)
            return r.astype(dtype) if dtype is not None else r
        d["arange"] = _arange
        def _linspace(*a, dtype=None, **kw): return symnp.H_linspace(*a, **kw)
        d["linspace"] = _linspace
        d["array"] = lambda x, dtype=None, **k: (asobj(x).astype(dtype) if dtype is not None else asobj(x).copy())

def _no_stop(x): raise Unsupported("stop_gradient")
class _Tree(types.ModuleType):
    def __init__(self):
        super().__init__("jax.tree_util")
        self.tree_map = self.map = lambda f, *ts, **k: tmap(f, *ts)
        self.tree_leaves = self.leaves = leaves

class _Lax(types.ModuleType):
    def __init__(self):
        super().__init__("jax.lax")
        self.__dict__.update(scan=scan, fori_loop=fori_loop, while_loop=while_loop, cond=cond, map=lmap, switch=switch,
                             dynamic_slice=dynamic_slice, dynamic_slice_in_dim=dynamic_slice_in_dim, dynamic_index_in_dim=dynamic_index_in_dim,
                             dynamic_update_slice=dynamic_update_slice, associative_scan=associative_scan, stop_gradient=_no_stop,
                             select=lambda c, t, f: symnp.H_where(c, t, f))
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        raise Unsupported("jax.lax." + n)
class _Config:
    def update(self, *a): pass
    def __setattr__(self, *a): pass
class Jax(types.ModuleType):
    def __init__(self):
        super().__init__("jax")
        d = self.__dict__
        d["numpy"] = Jnp(); d["lax"] = _Lax(); d["config"] = _Config()
        d["vmap"] = vmap; d["jacfwd"] = d["jacrev"] = d["jacobian"] = jac; d["grad"] = grad; d["value_and_grad"] = value_and_grad; d["hessian"] = hessian
        d["jvp"] = jvp; d["tree_util"] = d["tree"] = _Tree(); d["tree_map"] = d["tree_util"].map
        d["checkpoint"] = d["remat"] = lambda f, **k: f; d["block_until_ready"] = d["device_put"] = d["device_get"] = lambda x, *a, **k: x
        d["Array"] = np.ndarray
        sp = types.ModuleType("jax.scipy"); sp.linalg = symnp.LinalgShim(_sl, "jax.scipy.linalg"); d["scipy"] = sp
        d["jit"] = lambda f=None, **k: (f if f is not None else (lambda g: g))
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        raise Unsupported("jax." + n)

def install():
    """`import jax.x` binds the top-level package; `from jax.x import y` takes y from the submodule."""
    j = Jax()
    for sub in ("numpy", "lax", "scipy", "scipy.linalg", "tree_util", "tree", "numpy.linalg"):
        m = j
        for part in sub.split("."): m = getattr(m, part)
        symnp.EXTRA_IMPORTS["jax." + sub] = (j, m)
    symnp.EXTRA_IMPORTS["jax"] = (j, j)
    return j

def jnp_module():
    """the stand-in for jax.numpy that repository code sees"""
    return symnp.EXTRA_IMPORTS["jax"][0].numpy
