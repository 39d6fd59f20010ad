"""Symbolic interpreter for TensorFlow graphs: the real tf.functions of /repo are traced to their concrete graphs and
every operation of the graph is executed on symbolic scalars (reals, finite-domain integers, rational functions)."""
import os, math, itertools, sys
from fractions import Fraction
import numpy as np
from . import zsym, poly, symnp
from .zsym import Unsupported, ite, is_num, FInt, BoolT, RealT, land, lor, lnot, smin, smax
from .poly import Rat, Ext
from .symnp import (CALLS, cval, to_obj, unwrap, asobj, _map, _map2, _red, fold_min, fold_max, zsym_argmin, zsym_argmax,
                    omatmul, osolve, osolve_tri, ocholesky, s_un, s_div, s_add, s_sub, s_mul, s_pow, la_det)
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
import warnings
warnings.filterwarnings("ignore")
import tensorflow as tf
tf.get_logger().setLevel("ERROR")
tf.config.threading.set_inter_op_parallelism_threads(1) if False else None

class AssertFailed(Exception): pass

def conc(a): return not (isinstance(a, np.ndarray) and a.dtype == object)

def lower(a):
    """object array of concrete ints/bools -> native array."""
    if not isinstance(a, np.ndarray) or a.dtype != object: return a
    f = a.reshape(-1)
    if all(isinstance(v, (bool, np.bool_)) for v in f) and f.size: return a.astype(bool)
    if all(isinstance(v, (int, np.integer)) and not isinstance(v, (bool, np.bool_)) for v in f): return a.astype(np.int64)
    return a

def obj(a):
    return a if isinstance(a, np.ndarray) and a.dtype == object else to_obj(np.asarray(a))

def fin(a, dt):
    """value in canonical form for dtype dt: floats are object arrays, concrete integers and booleans native arrays."""
    a = np.asarray(a) if not isinstance(a, np.ndarray) else a
    if isinstance(a, symnp.SymArray): a = unwrap(a)
    if dt.is_floating: return obj(a)
    if dt == tf.string: return a
    if a.dtype == object: a = lower(a)
    if a.dtype != object and dt.is_integer: a = a.astype(dt.as_numpy_dtype)
    return a

def scalar_arr(v):
    o = np.empty((), dtype=object); o[()] = v
    return o

def ints(a):
    if not conc(a):
        a = lower(a)
        if not conc(a): raise Unsupported("symbolic shape or axis")
    return a

def ew(f, *args):
    os_ = [obj(a) for a in args]
    shp = np.broadcast_shapes(*[o.shape for o in os_])
    if len(os_) == 1:
        return _map(f, os_[0])
    b = [np.broadcast_to(o, shp) for o in os_]
    out = np.empty(shp, dtype=object)
    if shp == ():
        out[()] = f(*[x.item() for x in b]); return out
    of = out.reshape(-1)
    its = [np.ravel(x) for x in b]
    for i in range(of.shape[0]): of[i] = f(*[x[i] for x in its])
    return out

def _cmpz(f): return lambda a, b: f(a, b)

def _div(a, b):
    return s_div(a, b)
def _divnonan(a, b):
    if is_num(b): return 0 if b == 0 else s_div(a, b)
    if isinstance(b, Rat) and b.is_const() and b.value() == 0: return Rat.const(0)
    z = (b == 0)
    if z is True: return 0
    if z is False or isinstance(b, Rat): return s_div(a, b)
    return ite(z, 0, s_div(a, b))
def _abs(a): return abs(a)
def _mod(a, b): return symnp.s_mod(a, b)
def _tb(a): return a if isinstance(a, (bool, np.bool_, BoolT)) else (a != 0)

EW = {
    "AddV2": s_add, "Add": s_add, "Sub": s_sub, "Mul": s_mul, "RealDiv": _div, "Div": _div, "DivNoNan": _divnonan,
    "MulNoNan": lambda a, b: 0 if (is_num(b) and b == 0) else s_mul(a, b), "Neg": lambda a: -symnp._fx(a), "Square": lambda a: a * a,
    "Sqrt": s_un("sqrt"), "Rsqrt": lambda a: s_div(1, s_un("sqrt")(a)), "Exp": s_un("exp"), "Log": s_un("log"), "Sin": s_un("sin"), "Cos": s_un("cos"),
    "Tan": s_un("tan"), "Tanh": s_un("tanh"), "Atan": s_un("arctan"), "Abs": _abs, "Sign": symnp.s_sign,
    "Reciprocal": lambda a: s_div(1, a), "Inv": lambda a: s_div(1, a), "Pow": s_pow,
    "Maximum": smax, "Minimum": smin, "SquaredDifference": lambda a, b: (a - b) * (a - b),
    "Less": symnp.s_lt, "LessEqual": symnp.s_le, "Greater": symnp.s_gt, "GreaterEqual": symnp.s_ge,
    "LogicalAnd": symnp.s_and, "LogicalOr": symnp.s_or, "LogicalNot": lambda a: lnot(_tb(a)),
    "FloorMod": _mod, "Mod": _mod, "FloorDiv": symnp.s_floordiv, "TruncateDiv": lambda a, b: symnp.s_trunc(s_div(a, b)),
    "Floor": symnp.s_floor, "Ceil": symnp.s_ceil, "IsNan": symnp.s_isnan, "IsInf": symnp.s_isinf, "IsFinite": symnp.s_isfinite,
    "OnesLike": lambda a: 1, "ZerosLike": lambda a: 0,
}
NATIVE = {"AddV2": np.add, "Add": np.add, "Sub": np.subtract, "Mul": np.multiply, "Neg": np.negative, "Square": np.square, "Abs": np.abs, "Sign": np.sign,
          "Maximum": np.maximum, "Minimum": np.minimum, "Less": np.less, "LessEqual": np.less_equal, "Greater": np.greater, "GreaterEqual": np.greater_equal,
          "LogicalAnd": np.logical_and, "LogicalOr": np.logical_or, "LogicalNot": np.logical_not, "FloorMod": np.mod, "FloorDiv": np.floor_divide, "Pow": np.power,
          "BitwiseAnd": np.bitwise_and, "BitwiseOr": np.bitwise_or, "LeftShift": np.left_shift, "RightShift": np.right_shift, "Equal": np.equal, "NotEqual": np.not_equal}

class TList:
    def __init__(self, n, items=None): self.items = items if items is not None else [None] * n
    def copy(self): return TList(0, list(self.items))

def _sel(i, f, n, neg=False):
    """f(i) for a possibly symbolic index in 0..n-1."""
    if isinstance(i, FInt):
        items = []
        for v, g in i.d.items():
            if 0 <= v < n: items.append((g, f(v)))
            else: zsym.CTX.sideconds.append((zsym.z3.Not(g), "index in range"))
        if not items: raise IndexError("index out of range")
        r = items[-1][1]
        for g, x in reversed(items[:-1]): r = ite(zsym.mkbool(g), x, r)
        return r
    i = int(i)
    if not 0 <= i < n: raise IndexError(f"index {i} is not in [0, {n})")
    return f(i)

def _put(arr, idx, val):
    """arr[idx] = val with possibly symbolic leading index entries (updates an object array in place)."""
    for j, i in enumerate(idx):
        if isinstance(i, FInt):
            for v, g in i.d.items():
                if not 0 <= v < arr.shape[j]:
                    zsym.CTX.sideconds.append((zsym.z3.Not(g), "index in range")); continue
                kk = idx[:j] + (v,) + idx[j + 1:]
                if any(isinstance(x, FInt) for x in kk[j + 1:]):
                    old = arr.copy(); new = arr.copy(); _put(new, kk, val)
                    m = ite(zsym.mkbool(g), new, old); arr[...] = m
                else:
                    old = arr[tuple(int(x) for x in kk)]
                    old = old.copy() if isinstance(old, np.ndarray) else old
                    arr[tuple(int(x) for x in kk)] = ite(zsym.mkbool(g), val, old)
            return
        if not 0 <= int(i) < arr.shape[j]: raise IndexError("scatter index out of range")
    arr[tuple(int(x) for x in idx)] = val

class Interp:
    def __init__(self, name=""):
        self.depth = 0

    # ---------------- graph execution
    def run_graph(self, g, inputs, want=None):
        env = {}
        for ph, v in zip(g.inputs, inputs): env[ph.name] = v
        outs = list(want if want is not None else g.outputs)
        need = set()
        stack = [o.op for o in outs if o is not None]
        for c in getattr(g, "control_outputs", []) or []: stack.append(c)
        while stack:
            op = stack.pop()
            if op.name in need: continue
            need.add(op.name)
            for i in op.inputs: stack.append(i.op)
            for c in op.control_inputs: stack.append(c)
        phs = {ph.op.name for ph in g.inputs}
        todo = [op for op in g.get_operations() if op.name in need and op.name not in phs]
        pos = {op.name: i for i, op in enumerate(todo)}
        if any(pos.get(j.name, -1) > i for i, op in enumerate(todo) for j in [k.op for k in op.inputs] + list(op.control_inputs)):
            done, order = set(phs), []          # loops rewritten for differentiation get inputs created after them
            st = [(op, False) for op in reversed(todo)]
            while st:
                op, ready = st.pop()
                if op.name in done: continue
                if ready: done.add(op.name); order.append(op); continue
                st.append((op, True)); st.extend((d, False) for d in [k.op for k in op.inputs] + list(op.control_inputs) if d.name not in done)
            todo = order
        for op in todo:
            ins = [env[i.name] for i in op.inputs]
            try:
                res = self.op(g, op, ins)
            except (Unsupported, AssertFailed, IndexError, ZeroDivisionError, np.linalg.LinAlgError):
                raise
            if not isinstance(res, (list, tuple)): res = [res]
            for t, v in zip(op.outputs, res):
                if not isinstance(v, TList) and t.dtype != tf.variant and t.dtype != tf.resource:
                    v = fin(v, t.dtype)
                    if t.shape.rank is not None and (len(t.shape) != v.ndim or any(a is not None and a != b for a, b in zip(t.shape, v.shape))):
                        raise Unsupported(f"shape mismatch in {op.type} {op.name}: {t.shape} vs {v.shape}")
                env[t.name] = v
        return [env[o.name] for o in outs]

    def func(self, g, name):
        fs = None
        gg = g
        while gg is not None:
            try:
                f = gg._get_function(name)
                if f is not None: fs = f; break
            except Exception: pass
            gg = getattr(gg, "outer_graph", None)
        if fs is None:
            from tensorflow.python.eager.polymorphic_function import atomic_function as af
            fs = af.RUNTIME_FUNCTION_REFS.get(name)
            if callable(fs) and not hasattr(fs, "graph"): fs = fs()
        if fs is None: raise Unsupported("function " + name)
        CALLS["tf:" + _strip(name)] = CALLS.get("tf:" + _strip(name), 0) + 1
        return fs.graph

    def op(self, g, op, x):
        t = op.type
        CALLS["op:" + t] = CALLS.get("op:" + t, 0) + 1
        if t in EW or t in NATIVE:
            if t in NATIVE and all(conc(a) for a in x) and not (t in ("Equal", "NotEqual") and any(a.dtype.kind == 'S' for a in x)):
                return NATIVE[t](*x)
            if t in ("Equal", "NotEqual"):
                f = (lambda a, b: a == b) if t == "Equal" else (lambda a, b: a != b)
                return ew(f, *x)
            return ew(EW[t], *x)
        h = OPS.get(t)
        if h is None: raise Unsupported(f"tf op {t} ({op.name})")
        return h(self, g, op, x)

def _strip(n):
    n = n.replace("__inference_", "").replace("__forward_", "")
    while n and (n[-1].isdigit() or n[-1] == "_"): n = n[:-1]
    return n

OPS = {}
def opdef(*names):
    def d(f):
        for n in names: OPS[n] = f
        return f
    return d

@opdef("Identity", "StopGradient", "PreventGradient", "EnsureShape", "CheckNumerics", "ReadVariableOp")
def _id(I, g, op, x): return x[0]
@opdef("IdentityN")
def _idn(I, g, op, x): return list(x)
@opdef("PyFunc", "PyFuncStateless", "EagerPyFunc")
def _pyfunc(I, g, op, x):
    """Python callables that a check passes in as arbitrary functions (tf.numpy_function)"""
    from tensorflow.python.ops import script_ops
    tok = op.get_attr("token")
    f = script_ops._py_funcs.get(tok.decode() if isinstance(tok, bytes) else tok)
    r = f(*x)
    return list(r) if isinstance(r, (list, tuple)) else [r]
@opdef("NoOp", "Print", "PrintV2")
def _noop(I, g, op, x): return []
@opdef("Assert")
def _assert(I, g, op, x):
    c = x[0]
    v = c.item() if isinstance(c, np.ndarray) else c
    if isinstance(v, BoolT):
        if not bool(v): raise AssertFailed(op.name)
    elif not v: raise AssertFailed(op.name)
    return []
@opdef("Const")
def _const(I, g, op, x):
    v = tf.make_ndarray(op.get_attr("value"))
    return v if op.outputs[0].dtype != tf.string else v
@opdef("Placeholder", "PlaceholderWithDefault")
def _ph(I, g, op, x):
    if x: return x[0]
    raise Unsupported("unbound placeholder " + op.name)
@opdef("Cast")
def _cast(I, g, op, x):
    a = x[0]; s = op.inputs[0].dtype; d = op.outputs[0].dtype
    if s == d: return a
    if d.is_floating:
        if conc(a): return to_obj(a.astype(int)) if a.dtype.kind in 'iub' else to_obj(a)
        def f(v):
            if isinstance(v, (bool, np.bool_)): return int(v)
            if isinstance(v, BoolT): return zsym.num(v).as_real()
            if isinstance(v, FInt): return v.as_real()
            return v
        return ew(f, a)
    if d == tf.bool: return ew(_tb, a) if not conc(a) else a.astype(bool)
    if conc(a): return a.astype(d.as_numpy_dtype)
    return ew(lambda v: symnp.coerce(v, 'i'), a)
@opdef("Fill")
def _fill(I, g, op, x):
    return np.broadcast_to(x[1], tuple(int(i) for i in ints(x[0]))).copy()
@opdef("Shape")
def _shape(I, g, op, x):
    v = x[0]
    if isinstance(v, TList): raise Unsupported("shape of a list")
    return np.array(v.shape, dtype=np.int32)
@opdef("ShapeN")
def _shapen(I, g, op, x): return [np.array(v.shape, dtype=np.int32) for v in x]
@opdef("Size")
def _size(I, g, op, x): return np.array(x[0].size, dtype=np.int32)
@opdef("Rank")
def _rank(I, g, op, x): return np.array(x[0].ndim, dtype=np.int32)
@opdef("Reshape")
def _reshape(I, g, op, x): return x[0].reshape(tuple(int(i) for i in ints(x[1])))
@opdef("ExpandDims")
def _exp(I, g, op, x):
    a = int(ints(x[1]).reshape(-1)[0])
    return np.expand_dims(x[0], a)
@opdef("Squeeze")
def _sq(I, g, op, x):
    d = op.get_attr("squeeze_dims")
    return np.squeeze(x[0], tuple(d) if d else None)
@opdef("Transpose", "ConjugateTranspose")
def _tr(I, g, op, x): return np.transpose(x[0], tuple(int(i) for i in ints(x[1])))
@opdef("ConcatV2")
def _cc(I, g, op, x):
    ax = int(ints(x[-1])); vs = x[:-1]
    if any(not conc(v) for v in vs): vs = [obj(v) for v in vs]
    return np.concatenate(vs, ax)
@opdef("DynamicStitch", "ParallelDynamicStitch")
def _dstitch(I, g, op, x):
    n = len(x) // 2; ix = [ints(v).astype(int) for v in x[:n]]; da = list(x[n:])
    if any(not conc(v) for v in da): da = [obj(v) for v in da]
    size = max((int(i.max()) + 1 for i in ix if i.size), default=0)
    tail = da[0].shape[ix[0].ndim:]; out = np.zeros((size,) + tail, dtype=da[0].dtype)
    for i, d in zip(ix, da):
        for pos in np.ndindex(*i.shape): out[i[pos]] = d[pos]
    return out
@opdef("Round", "Rint")
def _round(I, g, op, x):
    if conc(x[0]): return np.round(x[0])
    def f(v):
        v = cval(v)
        if v is None: raise Unsupported("rounding of a symbolic value")
        return round(v)
    return _map(f, obj(x[0]))
@opdef("ConcatOffset")
def _coff(I, g, op, x):
    ax = int(ints(x[0])); off = 0; out = []
    for s in x[1:]:
        o = np.zeros_like(s); o[ax] = off; off += s[ax]; out.append(o)
    return out
@opdef("Pack")
def _pack(I, g, op, x):
    vs = list(x)
    if any(not conc(v) for v in vs): vs = [obj(v) for v in vs]
    return np.stack(vs, op.get_attr("axis"))
@opdef("Unpack")
def _unpack(I, g, op, x):
    ax = op.get_attr("axis")
    return [np.take(x[0], i, axis=ax) if x[0].ndim > 1 else _0d(x[0][i]) for i in range(op.get_attr("num"))]
def _0d(v):
    if isinstance(v, np.ndarray): return v
    if isinstance(v, (np.generic,)): return np.asarray(v)
    return scalar_arr(v)
def take(a, i, axis=0):
    r = np.take(a, i, axis=axis) if a.dtype != object else a[(slice(None),) * axis + (i,)]
    return _0d(r)
@opdef("Split")
def _split(I, g, op, x):
    return np.split(x[1], op.get_attr("num_split"), axis=int(ints(x[0])))
@opdef("SplitV")
def _splitv(I, g, op, x):
    s = ints(x[1]).astype(int); ax = int(ints(x[2])); n = x[0].shape[ax]
    s = np.where(s < 0, n - s[s >= 0].sum(), s)
    return np.split(x[0], np.cumsum(s)[:-1], axis=ax)
@opdef("Tile")
def _tile(I, g, op, x): return np.tile(x[0], tuple(int(i) for i in ints(x[1])))
@opdef("BroadcastTo")
def _bt(I, g, op, x): return np.broadcast_to(x[0], tuple(int(i) for i in ints(x[1]))).copy()
@opdef("ReverseV2")
def _rev(I, g, op, x): return np.flip(x[0], tuple(int(i) for i in ints(x[1]).reshape(-1))) if ints(x[1]).size else x[0]
@opdef("Pad", "PadV2", "MirrorPad")
def _pad(I, g, op, x):
    if op.type == "MirrorPad": raise Unsupported("MirrorPad")
    p = [(int(a), int(b)) for a, b in ints(x[1])]
    c = x[2].item() if len(x) > 2 else 0
    a = x[0]
    out = np.empty(tuple(s + p[i][0] + p[i][1] for i, s in enumerate(a.shape)), dtype=object if a.dtype == object or len(x) > 2 else a.dtype)
    out.fill(c)
    out[tuple(slice(p[i][0], p[i][0] + s) for i, s in enumerate(a.shape))] = a
    return out
@opdef("Range")
def _range(I, g, op, x):
    a, b, d = [v.item() for v in x]
    if op.outputs[0].dtype.is_floating:
        if any(isinstance(v, Rat) and not v.is_const() for v in (a, b, d)):
            q = Rat.lift(b - a) / d
            if not q.is_const(): raise Unsupported("range with symbolic bounds")
            o = np.empty(max(0, math.ceil(q.value())), dtype=object)       # the number of points in exact arithmetic
            for i in range(len(o)): o[i] = a + d * i
            return o
        a, b, d = [v.value() if isinstance(v, Rat) else v for v in (a, b, d)]
        n = math.ceil((Fraction(b) - Fraction(a)) / Fraction(d))
        nf = len(np.asarray(tf.range(float(a), float(b), float(d), dtype=op.outputs[0].dtype)))
        o = np.empty(nf, dtype=object)
        for i in range(nf): o[i] = symnp._c(Fraction(a) + i * Fraction(d))
        return o
    if any(isinstance(v, FInt) for v in (a, b, d)): raise Unsupported("symbolic range")
    return np.arange(int(a), int(b), int(d))
@opdef("LinSpace")
def _lin(I, g, op, x):
    return unwrap(symnp.H_linspace(x[0].item(), x[1].item(), int(x[2])))
@opdef("Slice")
def _slice(I, g, op, x):
    b = lower(x[1]); s = ints(x[2]).astype(int)
    a = x[0]
    if not conc(b):
        if not all(int(v) == 1 for v, q in zip(s, b) if isinstance(q, FInt)): raise Unsupported("symbolic slice")
        return _symslice(a, list(b), [1 if isinstance(q, FInt) else int(v) for v, q in zip(s, b)])
    return a[tuple(slice(int(i), int(i) + int(n) if n >= 0 else None) for i, n in zip(b, s))]
def _symslice(a, b, n):
    for j, q in enumerate(b):
        if isinstance(q, FInt):
            def f(v): return np.expand_dims(np.take(a, v, axis=j), j)
            r = _sel(q, f, a.shape[j])
            return _symslice_rest(r, b, n, j)
    return a[tuple(slice(int(i), int(i) + m) for i, m in zip(b, n))]
def _symslice_rest(a, b, n, j):
    b = list(b); b[j] = 0
    return _symslice(obj(a), b, n)
@opdef("StridedSlice")
def _ss(I, g, op, x):
    a = x[0]; beg, end, st = [lower(v) for v in x[1:4]]
    key = _sskey(op, beg, end, st)
    return _apply_key(a, key)
def _sskey(op, beg, end, st):
    A = op.get_attr
    key = []
    for i in range(len(beg)):
        bit = 1 << i
        if A("new_axis_mask") & bit: key.append(None)
        elif A("ellipsis_mask") & bit: key.append(Ellipsis)
        elif A("shrink_axis_mask") & bit: key.append(beg[i] if isinstance(beg[i], FInt) else int(beg[i]))
        else:
            b = None if A("begin_mask") & bit else beg[i]
            e = None if A("end_mask") & bit else end[i]
            s = int(st[i])
            if isinstance(b, FInt) or isinstance(e, FInt): key.append(("sym", b, e, s))
            else: key.append(slice(None if b is None else int(b), None if e is None else int(e), s))
    return key
def _apply_key(a, key):
    for j, k in enumerate(key):
        if isinstance(k, FInt) or (isinstance(k, tuple) and k[0] == "sym"):
            n = a.shape[_axis(a, key, j)]
            if isinstance(k, FInt):
                alts = [(g, key[:j] + [v] + key[j + 1:]) for v, g in k.d.items() if -n <= v < n]
                for v, g in k.d.items():
                    if not -n <= v < n: zsym.CTX.sideconds.append((zsym.z3.Not(g), "index in range"))
            else:
                _, b, e, s = k
                if isinstance(b, FInt) and e is None or isinstance(e, FInt): raise Unsupported("symbolic slice length")
                raise Unsupported("symbolic slice")
            if not alts: raise IndexError("slice index out of bounds")
            r = _apply_key(a, alts[-1][1])
            for gg, kk in reversed(alts[:-1]): r = ite(zsym.mkbool(gg), obj(_apply_key(a, kk)), obj(r))
            return r
        if isinstance(k, int):
            n = a.shape[_axis(a, key, j)]
            if not -n <= k < n: raise IndexError("slice index out of bounds")
    return _0d(a[tuple(key)])
def _axis(a, key, j):
    ax = 0
    for k in key[:j]:
        if k is None: continue
        if k is Ellipsis: ax += a.ndim - len([q for q in key if q is not None and q is not Ellipsis])
        else: ax += 1
    return ax
@opdef("StridedSliceGrad")
def _ssg(I, g, op, x):
    shp = tuple(int(i) for i in ints(x[0])); key = _sskey(op, *[ints(v) for v in x[1:4]])
    o = np.empty(shp, dtype=object); o.fill(0)
    o[tuple(key)] = obj(x[4]) if x[4].ndim else x[4].item()
    return o
@opdef("TensorStridedSliceUpdate")
def _tssu(I, g, op, x):
    key = _sskey(op, *[ints(v) for v in x[1:4]])
    o = x[0].copy(); o[tuple(key)] = x[4] if x[4].ndim else x[4].item()
    return o
@opdef("BroadcastGradientArgs")
def _bga(I, g, op, x):
    a = [int(i) for i in x[0]]; b = [int(i) for i in x[1]]
    n = max(len(a), len(b)); A = [1] * (n - len(a)) + a; Bb = [1] * (n - len(b)) + b
    ra = [i for i in range(n) if (A[i] == 1 and Bb[i] != 1) or i < n - len(a)]
    rb = [i for i in range(n) if (Bb[i] == 1 and A[i] != 1) or i < n - len(b)]
    ra = [i for i in range(n) if i < n - len(a) or (A[i] == 1)] if ra else ra
    rb = [i for i in range(n) if i < n - len(b) or (Bb[i] == 1)] if rb else rb
    return [np.array(ra, dtype=np.int32), np.array(rb, dtype=np.int32)]
@opdef("InvertPermutation")
def _ip(I, g, op, x): return np.argsort(ints(x[0]))
@opdef("Unique")
def _uniq(I, g, op, x):
    v, idx = np.unique(ints(x[0]), return_inverse=True)
    return [v, idx]

# ---- reductions
def _axes(a, v):
    v = ints(v).reshape(-1)
    return tuple(sorted({int(i) % a.ndim for i in v})) if a.ndim else ()
def _reduce(f, kind):
    def h(I, g, op, x):
        a = x[0]; ax = _axes(a, x[1]); keep = op.get_attr("keep_dims")
        if not ax: return a
        if conc(a):
            return {"sum": np.sum, "prod": np.prod, "min": np.min, "max": np.max, "any": np.any, "all": np.all}[kind](a, axis=ax, keepdims=keep)
        r = _red(a, ax, f, keep)
        return unwrap(r) if isinstance(r, np.ndarray) else scalar_arr(r)
    return h
OPS["Sum"] = _reduce(lambda v: symnp._foldl(s_add, v, 0), "sum")
OPS["Prod"] = _reduce(lambda v: symnp._foldl(s_mul, v, 1), "prod")
OPS["Min"] = _reduce(lambda v: fold_min(v) if len(v) else float('inf'), "min")
OPS["Max"] = _reduce(lambda v: fold_max(v) if len(v) else -float('inf'), "max")
OPS["Any"] = _reduce(lambda v: symnp._foldl(lor, v, False), "any")
OPS["All"] = _reduce(lambda v: symnp._foldl(land, v, True), "all")
@opdef("Mean")
def _mean(I, g, op, x):
    a = x[0]; ax = _axes(a, x[1]); n = 1
    for i in ax: n *= a.shape[i]
    s = OPS["Sum"](I, g, op, x)
    return ew(lambda v: s_div(v, n), s)
@opdef("ArgMin", "ArgMax")
def _argm(I, g, op, x):
    ax = int(ints(x[1])); f = zsym_argmin if op.type == "ArgMin" else zsym_argmax
    r = _red(obj(x[0]), ax, f)
    return unwrap(r) if isinstance(r, np.ndarray) else scalar_arr(r)
@opdef("Cumsum", "Cumprod")
def _cum(I, g, op, x):
    a = np.moveaxis(obj(x[0]), int(ints(x[1])), 0)
    f = s_add if op.type == "Cumsum" else s_mul
    if op.get_attr("reverse"): a = a[::-1]
    out = np.empty(a.shape, dtype=object); acc = None
    for i in range(a.shape[0]):
        cur = a[i] if acc is None else (ew(f, acc, a[i]) if isinstance(a[i], np.ndarray) else f(acc, a[i]))
        if op.get_attr("exclusive"): out[i] = (0 if op.type == "Cumsum" else 1) if acc is None else acc
        else: out[i] = cur
        acc = cur
    if op.get_attr("reverse"): out = out[::-1]
    return np.moveaxis(out, 0, int(ints(x[1])))
@opdef("AddN")
def _addn(I, g, op, x):
    r = x[0]
    for v in x[1:]: r = ew(s_add, r, v) if not (conc(r) and conc(v)) else r + v
    return r
@opdef("SelectV2", "Select")
def _sel2(I, g, op, x):
    c, a, b = x
    if op.type == "Select" and c.ndim < a.ndim: c = c.reshape(c.shape + (1,) * (a.ndim - c.ndim))
    if conc(c) and conc(a) and conc(b): return np.where(c, a, b)
    return ew(lambda q, u, v: ite(_tb(q), u, v), c, a, b)
@opdef("ClipByValue")
def _clip(I, g, op, x): return ew(lambda a, l, h: smin(smax(a, l), h), *x)
@opdef("Where")
def _where(I, g, op, x):
    return np.argwhere(ints(x[0]))
@opdef("OneHot")
def _onehot(I, g, op, x):
    idx, depth, on, off = x; n = int(depth); ax = op.get_attr("axis")
    idx = obj(idx); out = np.empty(idx.shape + (n,), dtype=object)
    for p in np.ndindex(*idx.shape):
        for k in range(n): out[p + (k,)] = ite(idx[p] == k, on.item(), off.item())
    return out if ax == -1 else np.moveaxis(out, -1, ax)

# ---- gather / scatter
@opdef("GatherV2", "Gather", "ResourceGather")
def _gather(I, g, op, x):
    p = x[0]; idx = lower(x[1])
    ax = int(ints(x[2])) if len(x) > 2 else 0
    if ax < 0: ax += p.ndim
    bd = op.get_attr("batch_dims") if op.type == "GatherV2" else 0
    if bd < 0: bd += idx.ndim
    symbolic = not conc(idx)
    out = None
    def one(pp, ii, a):
        shp = pp.shape[:a] + ii.shape + pp.shape[a + 1:]
        if not symbolic:
            if ii.size and (ii.min() < 0 or ii.max() >= pp.shape[a]): raise IndexError("gather index out of range")
            return np.take(pp, ii, axis=a)
        parts = []
        for pos in np.ndindex(*ii.shape): parts.append(_sel(ii[pos], lambda v: obj(take(pp, v, a)), pp.shape[a]))
        sub = pp.shape[:a] + pp.shape[a + 1:]
        o = np.empty((len(parts),) + sub, dtype=object)
        for j, q in enumerate(parts): o[j] = q if sub else q.item() if isinstance(q, np.ndarray) else q
        o = o.reshape(ii.shape + sub)
        k = ii.ndim
        return np.moveaxis(o, list(range(k)), list(range(a, a + k))) if k and a else o
    if bd == 0: return one(p, idx, ax)
    bs = p.shape[:bd]
    res = {}
    for pos in np.ndindex(*bs): res[pos] = one(p[pos], np.asarray(idx[pos]) if not isinstance(idx[pos], (FInt,)) else scalar_arr(idx[pos]), ax - bd)
    sub = next(iter(res.values())).shape if res else ()
    o = np.empty(bs + sub, dtype=object if any(not conc(v) for v in res.values()) else p.dtype)
    for pos, v in res.items(): o[pos] = v if sub else v.item()
    return o
@opdef("GatherNd")
def _gnd(I, g, op, x):
    p, idx = x[0], lower(x[1])
    d = idx.shape[-1]; sub = p.shape[d:]
    out = np.empty(idx.shape[:-1] + sub, dtype=object)
    def get(a, ks):
        if not ks: return a
        return _sel(ks[0], lambda v: obj(get(_0d(a[v]), ks[1:])), a.shape[0])
    for pos in np.ndindex(*idx.shape[:-1]):
        r = get(p, list(idx[pos]))
        out[pos] = r if sub else (r.item() if isinstance(r, np.ndarray) else r)
    return out
@opdef("TensorScatterUpdate", "TensorScatterAdd", "TensorScatterSub", "ScatterNd", "TensorScatterMin", "TensorScatterMax")
def _scat(I, g, op, x):
    if op.type == "ScatterNd":
        idx, upd = lower(x[0]), x[1]; base = np.empty(tuple(int(i) for i in ints(x[2])), dtype=object); base.fill(0); mode = "add"
    else:
        base = obj(x[0]).copy(); idx, upd = lower(x[1]), x[2]
        mode = {"TensorScatterUpdate": "set", "TensorScatterAdd": "add", "TensorScatterSub": "sub", "TensorScatterMin": "min", "TensorScatterMax": "max"}[op.type]
    upd = obj(upd); d = idx.shape[-1]
    for pos in np.ndindex(*idx.shape[:-1]):
        ks = tuple(idx[pos]); v = upd[pos]
        if mode != "set":
            if any(isinstance(k, FInt) for k in ks): raise Unsupported("accumulating scatter with symbolic indices")
            kk = tuple(int(k) for k in ks)
            if any(not 0 <= k < n for k, n in zip(kk, base.shape)): raise IndexError("scatter index out of range")
            cur = base[kk]
            f = {"add": s_add, "sub": s_sub, "min": smin, "max": smax}[mode]
            base[kk] = ew(f, cur, v) if isinstance(cur, np.ndarray) else f(cur, v)
        else: _put(base, ks, v)
    return base
@opdef("UnsortedSegmentSum")
def _uss(I, g, op, x):
    d, ids, n = obj(x[0]), ints(x[1]), int(x[2]); k = ids.ndim
    o = np.empty((n,) + d.shape[k:], dtype=object); o.fill(0)
    for pos in np.ndindex(*ids.shape):
        i = int(ids[pos])
        if i >= 0: o[i] = ew(s_add, o[i], d[pos]) if isinstance(o[i], np.ndarray) else o[i] + d[pos]
    return o

@opdef("SegmentSum")
def _segsum(I, g, op, x):
    return OPS["UnsortedSegmentSum"](I, g, op, [x[0], x[1], np.array(int(ints(x[1]).max()) + 1 if ints(x[1]).size else 0)])
@opdef("Roll")
def _roll(I, g, op, x):
    return np.roll(x[0], tuple(int(i) for i in np.atleast_1d(ints(x[1]))), tuple(int(i) for i in np.atleast_1d(ints(x[2]))))
@opdef("Diag")
def _diag(I, g, op, x):
    a = obj(x[0])
    if a.ndim != 1: raise Unsupported("tensor_diag rank")
    o = np.empty((a.shape[0],) * 2, dtype=object); o.fill(0)
    for i in range(a.shape[0]): o[i, i] = a[i]
    return o
@opdef("Relu")
def _relu(I, g, op, x): return ew(lambda v: symnp.smax(v, 0), obj(x[0]))
@opdef("TopKV2", "TopK")
def _topk(I, g, op, x):
    """order by forking on the comparisons (ties: the lower index first)"""
    a = obj(x[0]); k = int(ints(x[1])) if op.type == "TopKV2" else op.get_attr("k")
    vo = np.empty(a.shape[:-1] + (k,), dtype=object); io = np.empty(vo.shape, dtype=np.int32)
    for pos in np.ndindex(*a.shape[:-1]):
        idx = []
        for i in range(a.shape[-1]):
            j = len(idx)
            while j > 0 and bool(a[pos + (i,)] > a[pos + (idx[j - 1],)]): j -= 1
            idx.insert(j, i)
        for q in range(k): vo[pos + (q,)] = a[pos + (idx[q],)]; io[pos + (q,)] = idx[q]
    return [vo, io]

@opdef("BroadcastArgs")
def _bargs(I, g, op, x): return np.array(np.broadcast_shapes(tuple(int(i) for i in ints(x[0])), tuple(int(i) for i in ints(x[1]))), dtype=np.int32)

# ---- matrices
def _mm(a, b):
    r = omatmul(obj(a), obj(b))
    return r if isinstance(r, np.ndarray) else scalar_arr(r)
@opdef("MatMul")
def _matmul(I, g, op, x):
    a, b = x
    if op.get_attr("transpose_a"): a = a.T
    if op.get_attr("transpose_b"): b = b.T
    return _mm(a, b)
@opdef("BatchMatMul", "BatchMatMulV2", "BatchMatMulV3")
def _bmm(I, g, op, x):
    a, b = x
    if op.get_attr("adj_x"): a = np.swapaxes(a, -1, -2)
    if op.get_attr("adj_y"): b = np.swapaxes(b, -1, -2)
    return _mm(a, b)
@opdef("Einsum")
def _einsum(I, g, op, x):
    eq = op.get_attr("equation"); eq = eq.decode() if isinstance(eq, bytes) else eq
    return np.asarray(np.einsum(eq, *[obj(v) for v in x]))
def _batched(f, a, *rest):
    shp = a.shape[:-2]
    if not shp: return f(a, *rest)
    out = None
    for pos in np.ndindex(*shp):
        r = f(a[pos], *[q[pos] for q in rest])
        if out is None: out = np.empty(shp + r.shape, dtype=object)
        out[pos] = r
    return out
@opdef("MatrixSolve")
def _msolve(I, g, op, x):
    a, b = obj(x[0]), obj(x[1])
    if op.get_attr("adjoint"): a = np.swapaxes(a, -1, -2)
    return _batched(osolve, a, b)
@opdef("MatrixInverse")
def _minv(I, g, op, x):
    a = obj(x[0])
    if op.get_attr("adjoint"): a = np.swapaxes(a, -1, -2)
    return _batched(lambda m: osolve(m, to_obj(np.eye(m.shape[0], dtype=int))), a)
@opdef("MatrixDeterminant")
def _mdet(I, g, op, x): return _batched(lambda m: scalar_arr(la_det(m)), obj(x[0]))
@opdef("Cholesky")
def _chol(I, g, op, x): return _batched(lambda m: ocholesky(symnp._use_triangle(m, True)), obj(x[0]))
@opdef("MatrixTriangularSolve")
def _mts(I, g, op, x):
    a, b = obj(x[0]), obj(x[1]); low = op.get_attr("lower"); adj = op.get_attr("adjoint")
    shp = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a = np.broadcast_to(a, shp + a.shape[-2:]); b = np.broadcast_to(b, shp + b.shape[-2:])
    def f(m, r):
        if adj: return osolve_tri(m.T, r, not low)
        return osolve_tri(m, r, low)
    return _batched(f, a, b)
@opdef("Lu")
def _lu(I, g, op, x):
    def f(m):
        n = m.shape[0]; A = m.copy(); perm = list(range(n))
        for c in range(n):
            cand = [r for r in range(c, n) if not symnp._iszero(A[r, c])]
            if not cand: raise np.linalg.LinAlgError("Input is not invertible.")
            allnum = all(is_num(A[r, c]) or (isinstance(A[r, c], Rat) and A[r, c].is_const()) for r in cand)
            def mag(r): v = A[r, c]; return abs(v.value() if isinstance(v, Rat) else v)
            p = max(cand, key=mag) if allnum else min(cand, key=lambda r: symnp._complexity(A[r, c]))
            if p != c:
                A[[c, p]] = A[[p, c]]; perm[c], perm[p] = perm[p], perm[c]
            ip = s_div(1, A[c, c])
            for r in range(c + 1, n):
                A[r, c] = s_mul(A[r, c], ip) if not symnp._iszero(A[r, c]) else 0
                for k in range(c + 1, n):
                    if not symnp._iszero(A[r, c]) and not symnp._iszero(A[c, k]): A[r, k] = A[r, k] - A[r, c] * A[c, k]
        return A, np.array(perm, dtype=np.int32)
    a = obj(x[0]); shp = a.shape[:-2]
    if not shp: return list(f(a))
    L = np.empty(a.shape, dtype=object); P = np.empty(a.shape[:-1], dtype=np.int32)
    for pos in np.ndindex(*shp): L[pos], P[pos] = f(a[pos])
    return [L, P]
@opdef("MatrixDiag", "MatrixDiagV2", "MatrixDiagV3")
def _mdiag(I, g, op, x):
    d = x[0]
    if len(x) > 1:
        k = ints(x[1]).reshape(-1)
        if len(k) != 1 or int(k[0]) != 0: raise Unsupported("MatrixDiag offset")
    n = d.shape[-1]
    r = n; c = n
    if len(x) > 3:
        r = int(x[2]) if int(x[2]) > 0 else n; c = int(x[3]) if int(x[3]) > 0 else n
    pad = x[4].item() if len(x) > 4 else 0
    o = np.empty(d.shape[:-1] + (r, c), dtype=object if not conc(d) else d.dtype); o.fill(pad)
    for i in range(min(n, r, c)): o[..., i, i] = d[..., i]
    return o
@opdef("MatrixDiagPart", "MatrixDiagPartV2", "MatrixDiagPartV3")
def _mdp(I, g, op, x):
    if len(x) > 1 and any(int(k) for k in ints(x[1]).reshape(-1)): raise Unsupported("MatrixDiagPart offset")
    a = x[0]; n = min(a.shape[-1], a.shape[-2])
    o = np.empty(a.shape[:-2] + (n,), dtype=a.dtype)
    for i in range(n): o[..., i] = a[..., i, i]
    return o
@opdef("MatrixSetDiag", "MatrixSetDiagV2", "MatrixSetDiagV3")
def _msd(I, g, op, x):
    if len(x) > 2 and any(int(k) for k in ints(x[2]).reshape(-1)): raise Unsupported("MatrixSetDiag offset")
    o = x[0].copy()
    for i in range(min(o.shape[-2:])): o[..., i, i] = x[1][..., i]
    return o
@opdef("MatrixBandPart")
def _mbp(I, g, op, x):
    a = obj(x[0]).copy(); lo, hi = int(ints(x[1])), int(ints(x[2]))
    for i in range(a.shape[-2]):
        for j in range(a.shape[-1]):
            if (lo >= 0 and i - j > lo) or (hi >= 0 and j - i > hi): a[..., i, j] = 0
    return a

# ---- control flow
@opdef("PartitionedCall", "StatefulPartitionedCall")
def _pcall(I, g, op, x):
    return I.run_graph(I.func(g, op.get_attr("f").name), x)
@opdef("SymbolicGradient")
def _sg(I, g, op, x): raise Unsupported("SymbolicGradient")
@opdef("While", "StatelessWhile")
def _while(I, g, op, x):
    c = I.func(g, op.get_attr("cond").name); b = I.func(g, op.get_attr("body").name)
    st = list(x)
    n = 0
    while True:
        (p,) = I.run_graph(c, st)
        v = p.item() if isinstance(p, np.ndarray) else p
        if not bool(v): break
        st = I.run_graph(b, st)
        n += 1
        if n > 100000: raise Unsupported("loop does not end")
    return st
@opdef("If", "StatelessIf")
def _if(I, g, op, x):
    v = x[0].item() if isinstance(x[0], np.ndarray) else x[0]
    th, el = op.get_attr("then_branch").name, op.get_attr("else_branch").name
    if isinstance(v, BoolT):
        try:
            a = I.run_graph(I.func(g, th), x[1:]); b = I.run_graph(I.func(g, el), x[1:])
            return [_merge(v, p, q) for p, q in zip(a, b)]
        except (zsym.CannotMerge, AssertFailed): pass
    return I.run_graph(I.func(g, th if bool(_tb(v)) else el), x[1:])
def _merge(c, a, b):
    if isinstance(a, TList): raise zsym.CannotMerge("list")
    if a.shape != b.shape: raise zsym.CannotMerge("shapes")
    return ew(lambda u, v: ite(c, u, v), a, b) if not (conc(a) and conc(b) and np.array_equal(a, b)) else a
@opdef("Case", "StatelessCase")
def _case(I, g, op, x):
    i = x[0].item() if isinstance(x[0], np.ndarray) else x[0]
    br = op.get_attr("branches")
    i = int(i)
    if not 0 <= i < len(br): i = len(br) - 1
    return I.run_graph(I.func(g, br[i].name), x[1:])

# ---- tensor lists
@opdef("TensorListReserve")
def _tlr(I, g, op, x): return TList(int(ints(x[1])))
@opdef("EmptyTensorList")
def _tle(I, g, op, x): return TList(0, [])
@opdef("TensorListFromTensor")
def _tlft(I, g, op, x): return TList(0, [_0d(x[0][i]) for i in range(x[0].shape[0])])
@opdef("TensorListSetItem")
def _tlsi(I, g, op, x):
    l = x[0].copy(); i = int(ints(x[1]))
    if i < 0: raise IndexError("list index")
    while i >= len(l.items): l.items.append(None)
    l.items[i] = x[2]; return l
@opdef("TensorListGetItem")
def _tlgi(I, g, op, x):
    i = lower(x[1]); i = i.item() if isinstance(i, np.ndarray) else i
    if isinstance(i, FInt): return _sel(i, lambda v: obj(x[0].items[v]), len(x[0].items))
    i = int(i)
    if not 0 <= i < len(x[0].items): raise IndexError("list index out of range")
    v = x[0].items[i]
    if v is None:
        shp = op.outputs[0].shape
        o = np.zeros([int(s) for s in shp], dtype=op.outputs[0].dtype.as_numpy_dtype)
        return o
    return v
@opdef("TensorListPushBack")
def _tlpb(I, g, op, x):
    l = x[0].copy(); l.items.append(x[1]); return l
@opdef("TensorListPopBack")
def _tlpop(I, g, op, x):
    l = x[0].copy(); v = l.items.pop(); return [l, v]
@opdef("TensorListLength")
def _tll(I, g, op, x): return np.array(len(x[0].items), dtype=np.int32)
@opdef("TensorListResize")
def _tlrs(I, g, op, x):
    l = x[0].copy(); n = int(ints(x[1]))
    l.items = l.items[:n] + [None] * max(0, n - len(l.items)); return l
@opdef("TensorListElementShape")
def _tles(I, g, op, x):
    for v in x[0].items:
        if v is not None: return np.array(v.shape, dtype=np.int32)
    return np.array(-1, dtype=np.int32)
@opdef("TensorListStack")
def _tls(I, g, op, x):
    it = x[0].items
    sub = next((v.shape for v in it if v is not None), None)
    if sub is None:
        s = op.outputs[0].shape
        sub = tuple(int(d) for d in s[1:]) if s.rank is not None and all(d is not None for d in s[1:]) else tuple(int(i) for i in ints(x[1]).reshape(-1))
    fl = op.outputs[0].dtype.is_floating
    z = np.zeros(sub, dtype=object if fl else op.outputs[0].dtype.as_numpy_dtype)
    it = [z if v is None else v for v in it]
    if not it: return np.zeros((0,) + sub, dtype=object if fl else op.outputs[0].dtype.as_numpy_dtype)
    if any(not conc(v) for v in it): it = [obj(v) for v in it]
    return np.stack(it)
@opdef("TensorListGather")
def _tlg(I, g, op, x):
    it = [x[0].items[int(i)] for i in ints(x[1])]
    if any(not conc(v) for v in it): it = [obj(v) for v in it]
    return np.stack(it)
@opdef("TensorListConcatLists")
def _tlcl(I, g, op, x): return TList(0, x[0].items + x[1].items)
@opdef("TensorListSplit")
def _tlsp(I, g, op, x):
    l = ints(x[2]).astype(int); return TList(0, np.split(x[0], np.cumsum(l)[:-1]))
@opdef("TensorListConcatV2")
def _tlc(I, g, op, x):
    it = [v for v in x[0].items]
    if any(not conc(v) for v in it): it = [obj(v) for v in it]
    return [np.concatenate(it), np.array([v.shape[0] for v in it], dtype=np.int64)]

# ---------------------------------------------------------------- entry point

def kind_dtype(a):
    if isinstance(a, symnp.SymArray):
        k = object.__getattribute__(a, "_kind")
        return {'f': tf.float64, 'i': tf.int32, 'b': tf.bool}[k]
    a = np.asarray(a)
    if a.dtype == object: return tf.float64
    return {'f': tf.float64, 'i': tf.int32, 'u': tf.int32, 'b': tf.bool}[a.dtype.kind]

def as_input(a, dtype=None):
    """(value, TensorSpec)"""
    if isinstance(a, symnp.SymArray):
        dt = dtype or kind_dtype(a); v = unwrap(a)
    elif isinstance(a, (FInt, BoolT)) or (isinstance(a, (int, np.integer)) and dtype is None):
        v = scalar_arr(a); dt = dtype or (tf.bool if isinstance(a, BoolT) else tf.int32)
    elif isinstance(a, np.ndarray):
        dt = dtype or kind_dtype(a); v = a
    elif isinstance(a, (list, tuple)):
        s = asobj(a); dt = dtype or kind_dtype(s); v = unwrap(s)
    else:
        dt = dtype or tf.float64; v = scalar_arr(cval(a) if isinstance(a, float) else a)
    v = fin(v, dt)
    return v, tf.TensorSpec(v.shape, dt)

_TRACE = {}

def call(fn, *args, key=None, dtypes=None):
    """Trace fn (a Python callable taking tensors, or nested lists/tuples of tensors) for the shapes of args and
    interpret its graph on the symbolic args (key: reuse the trace of an identical fn). Returns the structured result with object arrays as leaves."""
    flat = tf.nest.flatten([_leafy(a) for a in args])
    vals, specs = [], []
    for i, l in enumerate(flat):
        v, s = as_input(l.v, dtypes[i] if dtypes else None)
        vals.append(v); specs.append(s)
    sargs = tf.nest.pack_sequence_as([_leafy(a) for a in args], specs)
    k = None if key is None else (key, str(tf.nest.map_structure(str, sargs)))
    cf = _TRACE.get(k) if k else None
    if cf is None:
        cf = tf.function(fn).get_concrete_function(*sargs)
        if k: _TRACE[k] = cf
    g = cf.graph
    caps = []
    for c in cf.captured_inputs:
        if c.dtype in (tf.resource, tf.variant): raise Unsupported("captured resource")
        caps.append(fin(c.numpy(), c.dtype))
    I = Interp()
    outs = I.run_graph(g, vals + caps)
    so = cf.structured_outputs
    if isinstance(so, (list, tuple, dict)) or tf.nest.is_nested(so):
        fl = tf.nest.flatten(so, expand_composites=True)
        byname = dict(zip([o.name for o in g.outputs], outs))
        it = iter(outs)
        res = [next(it) if isinstance(o, (tf.Tensor, tf.TensorSpec)) or hasattr(o, "dtype") else o for o in fl]
        return tf.nest.pack_sequence_as(so, [Leaf(r) for r in res], expand_composites=True), True
    return (outs[0] if outs else None), False

class Leaf:
    def __init__(self, v): self.v = v

def _leafy(a):
    if isinstance(a, (list, tuple)) and not _is_numeric_nest(a): return type(a)(_leafy(i) for i in a)
    if isinstance(a, dict): return {k: _leafy(v) for k, v in a.items()}
    return Leaf(a)

def _is_numeric_nest(a):
    for i in a:
        if isinstance(i, np.ndarray): return False
        if isinstance(i, (list, tuple)):
            if not _is_numeric_nest(i): return False
    return all(not isinstance(i, str) for i in a) and len(a) > 0

def _unleaf(r):
    if isinstance(r, Leaf): return r.v
    if isinstance(r, tuple) and hasattr(r, "_fields"): return type(r)(*[_unleaf(i) for i in r])
    if isinstance(r, (list, tuple)): return type(r)(_unleaf(i) for i in r)
    if isinstance(r, dict): return {k: _unleaf(v) for k, v in r.items()}
    if hasattr(r, "__wrapped__"): return _unleaf(r.__wrapped__)
    return r

def run(fn, *args, **kw):
    r, nested = call(fn, *args, **kw)
    return _unleaf(r) if nested else r

def module(name):
    import importlib
    return importlib.import_module("parallel_control." + name)

def repo(mod, fname, *args, **kw):
    """trace and interpret parallel_control.<mod>.<fname>(*args, **kw); kw are Python values passed at trace time."""
    f = getattr(module(mod), fname)
    CALLS[f"{mod}.{fname}"] = CALLS.get(f"{mod}.{fname}", 0) + 1
    return run(lambda *a: f(*a, **kw), *args)

class _TFShim(__import__("types").ModuleType):
    """tensorflow for repository helpers that only convert data: conversion keeps symbolic arrays."""
    def __init__(self):
        super().__init__("tensorflow")
    @staticmethod
    def convert_to_tensor(x, dtype=None, **k):
        a = asobj(x)
        if dtype is not None:
            dt = tf.as_dtype(dtype)
            kind = 'f' if dt.is_floating else ('b' if dt == tf.bool else 'i')
            if kind != a._kind: a = a.astype({'f': float, 'i': int, 'b': bool}[kind])
        return a
    constant = convert_to_tensor
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return getattr(tf, n)

def load_shim(modname):
    """symbolically executable copy of a *_tf module, for its data-conversion helpers only"""
    import tensorflow_probability as tfp
    symnp.EXTRA_IMPORTS.update({"tensorflow": _SHIM, "tensorflow_probability": tfp})
    return symnp.load(modname)
_SHIM = _TFShim()
