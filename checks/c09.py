"""C09: Combining conditional value functions is minimisation over the middle state."""
import importlib
from fractions import Fraction
import random
import numpy as np
from vlib.run import Check, Env, mval
from vlib import symnp, poly
from vlib.symnp import arr, osolve
from checks.lqt_common import var, R, mulo, mm, eye, zeros, frm, spd, fl, off

chk = Check("C09",
    bounds_text="exact rational-function identities over all values of the symbolic data: both elements fully symbolic for state dimension 1 and 2 (associativity: 1, and 2 with one element symbolic at a time), dimension 3 with one group of one element symbolic; singular and zero covariance-like matrices included; "
                "scans over up to 5 elements of dimension 1",
    outside="larger dimensions, points where I + C J is singular, rounding",
    explanation="the combination functions (NumPy source, TensorFlow graph) executed on exact rational functions and asserted equal to the saddle point over the intermediate state and multiplier, and, where C is invertible, to the directly minimised sum up to a constant")
chk.assumptions = ["floating point modelled as exact rational arithmetic", "LU factorisations followed by solves modelled as exact solutions", "C and J symmetric"]
def _imp():
    global tfsym
    from vlib import tfsym
    tfsym.module("lqt_tf")
chk.setup.append(_imp)
G5 = ("A", "b", "C", "eta", "J")

# ---------------------------------------------------------------- oracle
def combine(e, f):
    """saddle point over the intermediate state y and the multiplier l of
    x'Jx/2 - eta'x - l'Cl/2 - l'(y - Ax - b) + y'J2y/2 - eta2'y - w'C2w/2 + w'(A2 y + b2)   (w: multiplier of the final state)"""
    A, b, C, eta, J = e; A2, b2, C2, eta2, J2 = f
    n = len(b); I = eye(n); O = zeros(n, n)
    K = np.block([[J2, -I], [-I, -C]])
    # gradient of the rest with respect to (y, l), as an affine map of (x, w, 1)
    Gm = np.block([[O, A2.T, -eta2[:, None]], [A, O, b[:, None]]])
    S = osolve(K, Gm)
    z = zeros(n, 1)
    Q = np.block([[J, O, -eta[:, None]], [O, -C2, b2[:, None]], [-eta[None, :], b2[None, :], zeros(1, 1)]]) - mm(Gm.T, S)
    s1, s2 = slice(0, n), slice(n, 2 * n)
    return Q[s2, s1], Q[s2, 2 * n], -Q[s2, s2], -Q[s1, 2 * n], Q[s1, s1]
def comp(e, f): return mulo(f[0], e[0]), mulo(f[0], e[1]) + f[1]
def fold(es, op):
    r = es[0]
    for e in es[1:]: r = op(r, e)
    return r

def inst(rng, nm, n, sym, kind, base):
    """one element; sym: group names symbolic; kind: '' generic, 'C0' zero C, 'C1' singular C, 'J0' zero J, 'A0' zero A and C"""
    v = {"A": frm(rng, n, n) + eye(n) * Fraction(1, 2), "b": frm(rng, n), "C": spd(rng, n), "eta": frm(rng, n), "J": spd(rng, n)}
    def mk(g):
        o = np.empty(v[g].shape, dtype=object)
        for pos in np.ndindex(*o.shape):
            q = tuple(sorted(pos)) if g in "CJ" else pos
            k = f"{nm}{g}_" + "_".join(map(str, q)); base[k] = v[g][q]; o[pos] = var(k)
        return o
    r = {g: mk(g) if g in sym else v[g] for g in G5}
    if "C0" in kind: r["C"] = zeros(n, n)
    if "J0" in kind: r["J"] = zeros(n, n)
    if "A0" in kind: r["A"] = zeros(n, n)
    if "C1" in kind:
        g = r["b"] * 0 + np.array([Fraction(i + 1) for i in range(n)], dtype=object)
        r["C"] = np.array([[g[i] * g[j] for j in range(n)] for i in range(n)], dtype=object)
    return tuple(r[g] for g in G5)

# ---------------------------------------------------------------- concrete side
def A_(v): return np.array([A_(i) if isinstance(i, list) else Fraction(i) for i in v], dtype=object) if isinstance(v, list) else Fraction(v)
def cmpt(nm, got, want, names):
    if len(got) != len(want): return f"{nm}: {len(got)} parts"
    for g, a, b in zip(names, got, want):
        e = off(a, b)
        if e: return f"{nm} {g}: {e}"

@chk.family("comb")
def replay(case):
    mn = importlib.import_module("parallel_control.lqt_np")
    es = [tuple(A_(a) for a in e) for e in case["elems"]]
    what, lib = case["what"], case["lib"]
    names = G5 if len(es[0]) == 5 else ("F", "c"); op = combine if len(es[0]) == 5 else comp
    f64 = [tuple(fl(a) for a in e) for e in es]
    try:
        if lib == "np":
            f = (lambda x, y: mn.combine_abcej(*x, *y)) if op is combine else (lambda x, y: mn.combine_fc(*x, *y))
        else:
            _imp(); import tensorflow as tf
            mt = importlib.import_module("parallel_control.lqt_tf")
            g = {"tf": mt.lqt_par_comb_V, "tfrev": lambda a, b: mt.lqt_par_comb_V_rev(b, a)}[lib] if op is combine else mt.lqt_par_comb_f
            def f(x, y): return tuple(np.asarray(a)[0] for a in g(tuple(tf.constant(a[None]) for a in x), tuple(tf.constant(a[None]) for a in y)))
        if what == "comb":
            e = cmpt("combination", f(*f64), op(*es), names)
        elif what == "assoc":
            a, b, c = f64
            e = cmpt("left association", f(f(a, b), c), fold(es, op), names) or cmpt("right association", f(a, f(b, c)), fold(es, op), names)
        else:
            r = getattr(mn, what)(list(f64)); e = None
            if len(r) != len(es): return True, f"{what}: {len(r)} entries"
            rev = what == "par_backward_pass_scan"
            for k in range(len(es)):
                e = e or cmpt(f"{what} entry {k}", r[k], fold(es[k:] if rev else es[:k + 1], op), names)
    except Exception as ex:
        return True, f"{lib} {what} raises {type(ex).__name__}: {str(ex)[-300:]}"
    return (True, e) if e else (False, "agrees")

# ---------------------------------------------------------------- symbolic side
def call(t, lib, op):
    if lib == "np":
        m = symnp.load("lqt_np"); f = m.combine_abcej if op is combine else m.combine_fc
        return lambda x, y: tuple(np.asarray(symnp.unwrap(a), dtype=object) for a in f(*[arr(np.array(a, copy=True)) for a in x], *[arr(np.array(a, copy=True)) for a in y]))
    fn = getattr(tfsym.module("lqt_tf"), {"tf": "lqt_par_comb_V", "tfrev": "lqt_par_comb_V_rev"}[lib] if op is combine else "lqt_par_comb_f")
    n = {"tf": (0, 1), "tfrev": (1, 0)}[lib]
    k = 5 if op is combine else 2
    def g(*a):
        e = (a[:k], a[k:])
        return fn(e[n[0]], e[n[1]])
    def h(x, y):   # a batch of the pair and of a second, different pair: entries must not interact
        dim = len(x[1]); rng = random.Random(5)
        other = [(frm(rng, dim, dim), frm(rng, dim), spd(rng, dim), frm(rng, dim), spd(rng, dim))[:k] for _ in range(2)]
        a = [arr(np.stack([np.asarray(p, dtype=object), q])) for p, q in list(zip(x, other[0])) + list(zip(y, other[1]))]
        r = [np.asarray(symnp.unwrap(v), dtype=object) for v in tfsym.run(g, *a)]
        for b, w, nm in zip(r, op(*other), G5): t.equals("second batch entry " + nm, b[1], w, case=lambda env: dict(elems=mval(env, other), what="comb", lib=lib), base={})
        return tuple(v[0] for v in r)
    return h

def checkpair(t, f, e, g, op, kw, label):
    r = f(e, g); w = op(e, g)
    for nm, a, b in zip(G5 if op is combine else ("F", "c"), r, w): t.equals(f"{label} {nm}", a, b, **kw)
    return r

def comb(t, lib, n, sym=(G5, G5), kinds=("", ""), direct=False, seed=1, aff=False):
    rng = random.Random(seed * 31 + n); base = {}; t.paths += 1
    op = comp if aff else combine
    es = [inst(rng, nm, n, s, k, base) for nm, s, k in zip("pq", sym, kinds)]
    if aff: es = [e[:2] for e in es]
    kw = dict(case=lambda env: dict(elems=mval(env, es), what="comb", lib=lib), base=base)
    r = checkpair(t, call(t, lib, op), es[0], es[1], op, kw, "combination")
    if direct:
        # minimised sum of the two functions minus the combined function is the same for all (x, z)
        def val(e, x, z, Ci):
            A, b, C, eta, J = e; q = z - mulo(A, x) - b
            return Fraction(1, 2) * mulo(mulo(x, J), x) - mulo(eta, x) + Fraction(1, 2) * mulo(mulo(q, Ci), q)
        (A, b, C, eta, J), (A2, b2, C2, eta2, J2) = es
        Ci, C2i, C3i = [osolve(c, eye(n)) for c in (C, C2, r[2])]
        def mini(x, z):
            H = Ci + J2 + mm(A2.T, C2i, A2)
            y = osolve(H, (mulo(Ci, mulo(A, x) + b) + eta2 + mulo(mulo(A2.T, C2i), z - b2))[:, None])[:, 0]
            return val(es[0], x, y, Ci) + val(es[1], y, z, C2i)
        v = lambda nm: np.array([var(f"{nm}_{i}") for i in range(n)], dtype=object)
        x, z, o = v("x"), v("z"), zeros(n) + Fraction(0)
        if n > 1: x, z = x * 1, z * 1
        t.equal("minimised sum", mini(x, z) - val(r, x, z, C3i), mini(o, o) - val(r, o, o, C3i), **kw)

def assoc(t, lib, n, sym, kinds=("", "", ""), seed=1, aff=False):
    rng = random.Random(seed * 37 + n); base = {}; t.paths += 1
    op = comp if aff else combine
    es = [inst(rng, nm, n, s, k, base) for nm, s, k in zip("pqr", sym, kinds)]
    if aff: es = [e[:2] for e in es]
    f = call(t, lib, op)
    kw = dict(case=lambda env: dict(elems=mval(env, es), what="assoc", lib=lib), base=base)
    a = f(f(es[0], es[1]), es[2]); b = f(es[0], f(es[1], es[2]))
    for nm, p, q in zip(G5, a, b): t.equals("association " + nm, p, q, **kw)

def scan(t, name, K, sym=(), n=1):
    base = {}; t.paths += 1; rng = random.Random(K)
    aff = name == "par_forward_pass_scan"; op = comp if aff else combine
    es = [inst(rng, "e%d" % k, n, G5 if k in sym else ("b", "eta"), "", base) for k in range(K)]
    if aff: es = [e[:2] for e in es]
    kw = dict(case=lambda env: dict(elems=mval(env, es), what=name, lib="np"), base=base)
    m = symnp.load("lqt_np")
    r = getattr(m, name)([tuple(arr(np.array(a, copy=True)) for a in e) for e in es])
    t.equal("length", len(r), K, **kw)
    for k in range(K):
        w = fold(es[k:] if "backward" in name else es[:k + 1], op)
        for nm, a, b in zip(G5 if not aff else ("F", "c"), r[k], w): t.equals(f"entry {k} {nm}", a, b, **kw)

def validate(t):
    for s in range(10):
        rng = random.Random(t.seed * 100 + s); n = rng.randint(1, 4); base = {}
        for lib in ("np", "tf", "tfrev"):
            kinds = [rng.choice(["", "C0", "J0", "A0", "C1"]) for _ in range(3)]
            es = [inst(rng, nm, n, (), k, base) for nm, k in zip("pqr", kinds)]
            for what in ("comb", "assoc"):
                for cut in (5, 2):
                    case = dict(elems=mval(Env(), [e[:cut] for e in (es[:2] if what == "comb" else es)]), what=what, lib=lib); t.validated += 1
                    bad, msg = replay(dict(case))
                    if bad: t.report("concrete validation", case)

if __name__ == "__main__":
    big = chk.tier == "thorough"
    def add(nm, fn, **kw): chk.tasks.append((nm, fn, kw))
    A5 = G5; lin = ("b", "eta")
    for lib in ("np", "tf", "tfrev"):
        add(f"{lib} combine n=1 both symbolic", comb, lib=lib, n=1, direct=True)
        for k in range(2):
            add(f"{lib} combine n=2 element {k} symbolic", comb, lib=lib, n=2, sym=(A5 if k == 0 else lin, A5 if k == 1 else lin))
        add(f"{lib} combine n=2 direct minimisation", comb, lib=lib, n=2, sym=(("A",) + lin, lin), direct=True)
        add(f"{lib} combine n=2 C, J symbolic", comb, lib=lib, n=2, sym=(("C",) + lin, ("J",) + lin))
        for ks in (("C0", ""), ("C1", ""), ("", "C0"), ("C1", "C1"), ("", "J0"), ("J0", "J0"), ("C0", "J0"), ("", "A0 C0"), ("A0 C0", "")):
            add(f"{lib} combine n=2 kinds {ks}", comb, lib=lib, n=2, sym=(("A", "J") + lin, ("A", "C") + lin) if "" not in ks else (("A",) + lin, ("A",) + lin), kinds=ks, seed=3)
            add(f"{lib} combine n=1 kinds {ks}", comb, lib=lib, n=1, kinds=ks, seed=3)
        for g in ("A", "C"): add(f"{lib} combine n=3 first {g}", comb, lib=lib, n=3, sym=((g,) + lin, lin), seed=2)
        for g in ("A", "J"): add(f"{lib} combine n=3 second {g}", comb, lib=lib, n=3, sym=(lin, (g,) + lin), seed=2)
        if big:
            add(f"{lib} combine n=2 both symbolic", comb, lib=lib, n=2)
            add(f"{lib} combine n=3 C and J", comb, lib=lib, n=3, sym=(("A", "C") + lin, ("A", "J") + lin), seed=2)
        add(f"{lib} associativity n=1", assoc, lib=lib, n=1, sym=(A5,) * 3)
        for ks in (("C0", "", ""), ("", "C0", "J0"), ("J0", "", "A0 C0"), ("A0", "J0", "C0")): add(f"{lib} associativity n=1 kinds {ks}", assoc, lib=lib, n=1, sym=(A5,) * 3, kinds=ks)
        for k in range(3):
            s = [lin] * 3; s[k] = ("A", "C" if k < 2 else "J") + lin
            add(f"{lib} associativity n=2 element {k}", assoc, lib=lib, n=2, sym=tuple(s), seed=4)
        if lib == "tfrev": continue
        add(f"{lib} affine composition n=2", comb, lib=lib, n=2, aff=True); add(f"{lib} affine composition n=3", comb, lib=lib, n=3, aff=True)
        add(f"{lib} affine associativity n=2", assoc, lib=lib, n=2, sym=(A5,) * 3, aff=True)
    for nm in ("par_backward_pass_scan", "par_forward_pass_scan", "par_fwdbwd_pass_scan"):
        for K in range(1, 6 if not big else 10):
            add(f"{nm} K={K}", scan, name=nm, K=K, sym=(K // 2,))
        add(f"{nm} K=3 n=2", scan, name=nm, K=3, n=2)
    chk.task(validate, name="translation validation")
    chk.main()
