"""C05: NumPy Viterbi variants return the MAP state sequence."""
import importlib
import numpy as np, z3
from vlib.run import Check, mval
from vlib import zsym, symnp
from vlib.zsym import zval, LogP
from checks.vit_common import *

chk = Check("C05",
    bounds_text="positive prior, transition and output probabilities with |log p| <= 50 (not required to be normalised), symbolic observation sequences; sizes in configurations",
    outside="zero probabilities, tied most probable sequences, underflow of the probability form, larger sizes",
    explanation="Viterbi source executed with every probability a positive real represented by its logarithm; value tables and MAP sequence asserted equal to the path recursion")
chk.assumptions = ["log/exp modelled as exact inverse bijections", "rounding not modelled"]
VARIANTS = {"ref_viterbi": False, "ref_viterbi_log": True, "ref_viterbi_log_v2": True, "seqViterbi": True, "parBwdFwdViterbi": True, "parBwdFwdBwdViterbi": True}

@chk.family("vit")
def replay(case):
    m = importlib.import_module("parallel_control.viterbi_np")
    pr, Pi, Po, y = conc(case); V, seq, uniq = dp(case)
    for name, log in VARIANTS.items():
        if case.get("variant", name) != name: continue
        try:
            v = m.Viterbi_np(pr.copy(), Pi.copy(), Po.copy())
            y2 = y.copy()
            vm, Vl = getattr(v, name)(y2)
        except Exception as ex:
            return True, f"{name} raises {type(ex).__name__}: {ex}"
        e = check_result(name, case, vm, Vl, log, V, seq, uniq)
        if e: return True, e
    return False, "all variants agree"

def run(t, name, X, Y, N, y="sym"):
    h = HMM(X, Y, N, y); m = symnp.load("viterbi_np"); t.witness(h.asm); zsym.reset()
    V, seq, uq = h.oracle()
    log = VARIANTS[name]
    case = lambda mod: h.case(mod, variant=name)
    def body():
        v = m.Viterbi_np(h.prior.copy(), h.Pi.copy(), h.Po.copy())
        return getattr(v, name)(h.yarr())
    for pc, r, sc in zsym.explore(body, assume=h.asm):
        t.paths += 1; A = h.asm + pc
        if isinstance(r, zsym.Raised):
            rr, mod = t.solve(A)
            if rr == z3.sat: t.report("raised " + repr(r), case(mod))
            continue
        for c, txt in sc: t.prove(txt, c, A, case, prefer=h.prefer)
        vm, Vl = r
        Vl = np.asarray(symnp.unwrap(symnp.asobj(Vl)))
        if Vl.shape != (N + 1, X) or len(vm) != N + 1:
            rr, mod = t.solve(A); t.report("shape", case(mod)); continue
        for k in range(N + 1):
            for x in range(X):
                got = Vl[k, x]
                if not log:
                    if not isinstance(got, LogP):
                        rr, mod = t.solve(A); t.report("value is not a probability", case(mod)); continue
                    got = -got.l
                t.prove(f"value step {k} state {x}", zval(got) == zval(V[k][x]), A, case, prefer=h.prefer)
        t.witness(A + [uq])
        for k in range(N + 1):
            t.prove(f"map state {k}", B(vm[k] == seq[k]), A + [uq], case, prefer=h.prefer)

def validate(t):
    rng = np.random.default_rng(t.seed)
    for n in range(30):
        c = rand_case(rng, int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(1, 8)))
        bad, msg = replay(c); t.validated += 1
        if bad: t.report("concrete validation", c)

big = chk.tier == "thorough"
for name in VARIANTS:
    for X, Y, N, y in [(2, 2, 1, "sym"), (2, 2, 3, "sym"), (3, 2, 2, "sym"), (1, 2, 2, "sym"), (2, 3, 4, [0, 2, 1, 0]), (3, 3, 3, [2, 0, 1]), (2, 2, 5, [0, 1, 1, 0, 1])] + (
            [(2, 3, 4, "sym"), (3, 2, 4, [1, 0, 0, 1]), (4, 2, 3, [0, 1, 0]), (2, 2, 7, [0, 1, 1, 0, 1, 0, 0])] if big else []):
        chk.tasks.append((f"{name} X={X} Y={Y} N={N} y={y}", run, dict(name=name, X=X, Y=Y, N=N, y=y)))
chk.task(validate, name="translation validation")
if __name__ == "__main__": chk.main()
