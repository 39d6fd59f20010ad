"""C06: TensorFlow Viterbi variants return the MAP state sequence."""
import importlib, types
import numpy as np, z3
from vlib.run import Check, mval
from vlib import zsym, symnp
from vlib.zsym import zval, LogP
from vlib.symnp import arr
from checks.vit_common import *

chk = Check("C06",
    bounds_text="positive prior, transition and output probabilities with |log p| <= 50 (not required to be normalised), symbolic observation sequences; sizes in configurations",
    outside="zero probabilities, tied most probable sequences, larger sizes, TensorFlow kernels themselves, rounding",
    explanation="the Viterbi tf.functions are traced and their graphs executed with every probability a positive real represented by its logarithm; value tables and MAP sequences asserted equal to the path recursion")
chk.assumptions = ["TensorFlow kernels follow their documented semantics", "log modelled as an exact bijection", "rounding not modelled"]
def _imp():
    global tfsym
    from vlib import tfsym
    tfsym.module("viterbi_tf")
chk.setup.append(_imp)
FSC = ["viterbi_fsc_seq_bwfw", "viterbi_fsc_par_bwfw", "viterbi_fsc_par_bwfwbw"]
DIRECT = ["viterbi_seq_fwbw", "viterbi_par_fwbw", "viterbi_seqpar_fwbw", "viterbi_par_fwbwfw"]

@chk.family("vittf")
def replay(case):
    _imp()
    import tensorflow as tf
    m = importlib.import_module("parallel_control.viterbi_tf")
    pr, Pi, Po, y = conc(case); V, seq, uniq = dp(case)
    for name in FSC + DIRECT:
        if case.get("variant", name) != name: continue
        try:
            if name in FSC:
                args = m.make_viterbi_fsc(types.SimpleNamespace(prior=pr.copy(), Pi=Pi.copy(), Po=Po.copy()), y.copy())
            else:
                args = [tf.constant(a, dtype=tf.float64) for a in (pr, Pi, Po)] + [tf.constant(y, dtype=tf.int32)]
            vm, Vl = getattr(m, name)(*args)
        except Exception as ex:
            return True, f"{name} raises {type(ex).__name__}: {str(ex)[-300:]}"
        e = check_result(name, case, vm.numpy(), Vl.numpy(), True, V, seq, uniq)
        if e: return True, e
    return False, "all variants agree"

def sc_(v): return int(v) if isinstance(v, np.generic) else (sc_(v.item()) if isinstance(v, np.ndarray) else v)

def run(t, name, X, Y, N, y="sym"):
    h = HMM(X, Y, N, y); t.witness(h.asm); zsym.reset()
    V, seq, uq = h.oracle()
    case = lambda mod: h.case(mod, variant=name)
    def body():
        if name in FSC:
            c = tfsym.load_shim("viterbi_tf")
            a = c.make_viterbi_fsc(types.SimpleNamespace(prior=h.prior.copy(), Pi=h.Pi.copy(), Po=h.Po.copy()), h.yarr())
        else: a = (h.prior, h.Pi, h.Po, h.yarr())
        return tfsym.repo("viterbi_tf", name, *a)
    for pc, r, sc in zsym.explore(body, assume=h.asm):
        t.paths += 1; A = h.asm + pc
        if isinstance(r, zsym.Raised):
            rr, mod = t.solve(A)
            if rr == z3.sat: t.report("raised " + repr(r), case(mod))
            continue
        for c, txt in sc: t.prove(txt, c, A, case, prefer=h.prefer)
        vm, Vl = r
        if Vl.shape != (N + 1, X) or vm.shape != (N + 1,):
            rr, mod = t.solve(A); t.report("shape", case(mod)); continue
        for k in range(N + 1):
            for x in range(X): t.prove(f"value step {k} state {x}", zval(Vl[k, x]) == zval(V[k][x]), A, case, prefer=h.prefer)
        t.witness(A + [uq])
        for k in range(N + 1):
            t.prove(f"map state {k}", B(sc_(vm[k]) == seq[k]), A + [uq], case, prefer=h.prefer)

def validate(t, name):
    rng = np.random.default_rng(t.seed)
    for n in range(4):
        c = dict(rand_case(rng, int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(1, 8))), variant=name)
        bad, msg = replay(c); t.validated += 1
        if bad: t.report("concrete validation", c)

big = chk.tier == "thorough"
for name in FSC + DIRECT:
    for X, Y, N, y in [(2, 2, 1, "sym"), (2, 2, 3, "sym"), (3, 2, 2, "sym"), (1, 2, 2, "sym"), (2, 3, 4, [0, 2, 1, 0]), (2, 2, 5, [0, 1, 1, 0, 1])] + (
            [(3, 3, 3, [2, 0, 1])] if big or not name.startswith("viterbi_fsc_par") else []) + (
            [(2, 3, 4, "sym"), (3, 2, 4, [1, 0, 0, 1]), (4, 2, 3, [0, 1, 0]), (2, 2, 7, [0, 1, 1, 0, 1, 0, 0])] if big else []):
        chk.tasks.append((f"{name} X={X} Y={Y} N={N} y={y}", run, dict(name=name, X=X, Y=Y, N=N, y=y)))
    chk.tasks.append((f"translation validation {name}", validate, dict(name=name)))
if __name__ == "__main__": chk.main()
