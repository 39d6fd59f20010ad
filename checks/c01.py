"""C01: simulated associative scan = in-order prefixes/suffixes for every associative operator."""
from vlib.run import Check, Inconclusive, mfrac
from vlib import zsym, symnp
import z3, importlib

chk = Check("C01",
    bounds_text="every list length 1..N (N=300 quick, 1030 thorough), both directions; operator = free associative operation (sequence "
                "concatenation, the initial model of associativity, so the result carries over to every associative operator); element values symbolic",
    outside="longer lists; operators with side effects; lists containing None elements",
    explanation="The scan's source is executed with elements that are z3 sequences holding one symbolic token each and the operator being "
                "concatenation; z3 decides per position that the returned sequence equals the in-order concatenation for all token values.")
chk.assumptions = ["operator is associative and side-effect free", "list non-empty, elements not None"]

class Word:
    """element of the free semigroup; tokens symbolic"""
    def __init__(self, seq): self.seq = seq
    def __add__(self, o): return Word(z3.Concat(self.seq, o.seq))
    def _cmp(self, o): raise zsym.Unsupported("scan compares elements")
    __lt__ = __le__ = __gt__ = __ge__ = _cmp
    def __eq__(self, o):
        if o is None: return False
        return zsym.mkbool(self.seq == o.seq) if isinstance(o, Word) else False
    __hash__ = object.__hash__

@chk.family("scan")
def replay(case):
    m = importlib.import_module("parallel_control.my_assoc_scan")
    toks = [(int(x),) for x in case["tokens"]]
    inp = list(toks)
    try:
        out = m.my_assoc_scan(lambda x, y: x + y, inp, reverse=bool(case["reverse"]))
    except Exception as e:
        return True, f"raises {type(e).__name__}: {e}"
    n = len(toks)
    exp = [sum((toks[i:] if case["reverse"] else toks[:i + 1]), ()) for i in range(n)]
    if inp != toks: return True, f"input list changed: {inp[:6]}"
    if list(out) != exp:
        k = next((i for i in range(max(len(out), n)) if i >= len(out) or i >= n or out[i] != exp[i]), None)
        return True, f"N={n} reverse={case['reverse']}: entry {k} is {out[k] if k < len(out) else 'missing'}, expected {exp[k] if k < n else 'nothing'}"
    return False, "scan correct"

def run(t, ns, reverse):
    m = symnp.load("my_assoc_scan")
    for n in ns:
        toks = [z3.Int(f"t{i}") for i in range(n)]
        elems = [Word(z3.Unit(x)) for x in toks]
        inp = list(elems)
        case = lambda mod: dict(tokens=[int(mfrac(mod, x)) for x in toks] if mod is not None else list(range(n)), reverse=reverse)
        distinct = [z3.Distinct(*toks)] if n > 1 else []
        for pc, out, sc in zsym.explore(lambda: m.my_assoc_scan(lambda x, y: x + y, inp, reverse=reverse)):
            t.paths += 1
            if isinstance(out, zsym.Raised):
                t.report(f"N={n} raised", dict(tokens=list(range(n)), reverse=reverse)); continue
            ok_struct = len(inp) == n and all(a is b for a, b in zip(inp, elems)) and len(out) == n and all(isinstance(o, Word) for o in out)
            if not ok_struct:
                t.report(f"N={n} structure", dict(tokens=list(range(n)), reverse=reverse)); continue
            cl = []
            for k in range(n):
                us = [z3.Unit(x) for x in (toks[k:] if reverse else toks[:k + 1])]
                exp = z3.Concat(*us) if len(us) > 1 else us[0]
                cl.append(z3.simplify(out[k].seq) == z3.simplify(exp))
            t.prove(f"N={n} reverse={reverse}", z3.And(*cl), assume=pc, case=lambda mod: dict(tokens=list(range(n)), reverse=reverse))
        # translation validation: same tokens through the real function
        bad, msg = replay(dict(tokens=list(range(n)), reverse=reverse)); t.validated += 1
        if bad: t.report(f"N={n} concrete", dict(tokens=list(range(n)), reverse=reverse))
    # vacuity twin: a wrong expectation must be refuted
    a, b = z3.Int("a"), z3.Int("b")
    w = m.my_assoc_scan(lambda x, y: x + y, [Word(z3.Unit(a)), Word(z3.Unit(b))], reverse=reverse)
    r, _ = t.solve([w[0 if reverse else 1].seq != z3.Concat(z3.Unit(b), z3.Unit(a))])
    if r != z3.sat: raise Inconclusive("vacuity twin not refuted")
    t.vac += 1

N = 300 if chk.tier == "quick" else 1030
for rev in (False, True):
    for j in range(4):
        chk.task(run, name=f"lengths {1+j}..{N} step 4 reverse={rev}", ns=list(range(1 + j, N + 1, 4)), reverse=rev)
if __name__ == "__main__": chk.main()
