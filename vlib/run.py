"""Check runner: symbolic tasks in worker processes, solver obligations, replay, evidence."""
import json, os, sys, time, traceback, pickle, signal, argparse, random, select
from fractions import Fraction
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
if REPO not in sys.path: sys.path.insert(0, REPO)
_z = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _z not in sys.path: sys.path.append(_z)
import z3
from . import zsym, poly, symnp
from .zsym import Unsupported

class Inconclusive(Exception):
    pass

class Violation(Exception):
    def __init__(self, rec): self.rec = rec

def mfrac(m, e):
    """exact value of a z3 term in a model (completed)."""
    v = m.eval(e, model_completion=True)
    if z3.is_rational_value(v): return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v): return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v): return Fraction(1)
    if z3.is_false(v): return Fraction(0)
    raise Inconclusive(f"no value for {e}")

def mval(m, x):
    """concrete value of a symbolic scalar in a model: int, Fraction or bool (LogP: its logarithm)."""
    if isinstance(x, zsym.RealT): return mfrac(m, x.e)
    if isinstance(x, zsym.FInt):
        for v, g in x.d.items():
            if z3.is_true(m.eval(g, model_completion=True)): return v
        raise Inconclusive("integer outside its domain in the model")
    if isinstance(x, zsym.BoolT): return bool(z3.is_true(m.eval(x.e, model_completion=True)))
    if isinstance(x, zsym.LogP): return mval(m, x.l)
    if isinstance(x, poly.Rat):
        if isinstance(m, Env): return x.eval(m)
        env = {n: mfrac(m, poly.ZV[i]) for i, n in enumerate(poly.VARS)}
        return x.eval(env)
    if isinstance(x, (list, tuple)): return [mval(m, i) for i in x]
    import numpy as np
    if isinstance(x, np.ndarray): return [mval(m, i) for i in x] if x.ndim else mval(m, x.item())
    return x

def jsonable(x):
    import numpy as np
    if isinstance(x, Fraction): return str(x) if x.denominator != 1 else int(x)
    if isinstance(x, dict): return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [jsonable(i) for i in x]
    if isinstance(x, np.ndarray): return jsonable(x.tolist())
    if isinstance(x, (np.integer,)): return int(x)
    if isinstance(x, (np.floating,)): return float(x)
    if isinstance(x, (np.bool_,)): return bool(x)
    return x

def unjson(x):
    """numbers from their JSON form (fractions are strings 'a/b')."""
    if isinstance(x, str):
        try: return Fraction(x)
        except ValueError: return x
    if isinstance(x, dict): return {k: unjson(v) for k, v in x.items()}
    if isinstance(x, list): return [unjson(i) for i in x]
    return x

class Env(dict):
    """concrete values of the rational-function variables, used like a model; inside a path of a task explored path by path
    the values are moved to a point of that path (nearest first)"""
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        c = zsym.CTX
        if c.task_level and (c.path or poly.DOMAIN): self.settle(list(c.path))
    def settle(self, path):
        conds = path + list(poly.DOMAIN)
        pv = zvars(conds)
        full = [(poly.ZV[poly._VIDX[n]], z3.RealVal(str(q))) for n, q in self.items() if n in poly._VIDX]
        if all(z3.is_true(z3.simplify(z3.substitute(x, *full))) for x in conds): return
        fv = zvars(path) & pv
        for free in (fv, pv):
            sub = [(poly.ZV[poly._VIDX[n]], z3.RealVal(str(q))) for n, q in self.items() if n in poly._VIDX and n not in free]
            for rad in (Fraction(1, 4), 2, 20, None):
                s = z3.Solver(); s.set("timeout", 10000)
                for x in conds: s.add(z3.substitute(x, *sub) if sub else x)
                if rad is not None:
                    for n in free:
                        q = Fraction(self.get(n, 0)); s.add(poly.ZV[poly._VIDX[n]] >= z3.RealVal(str(q - rad)), poly.ZV[poly._VIDX[n]] <= z3.RealVal(str(q + rad)))
                if s.check() == z3.sat:
                    m = s.model()
                    for n in free: self[n] = mfrac(m, poly.ZV[poly._VIDX[n]])
                    return
        s = z3.Solver(); s.set("timeout", 30000)
        for x in conds: s.add(x)
        r = s.check()
        if r == z3.unsat: raise zsym.PathAbort()
        raise Inconclusive("no point of the explored path found")

def zvars(es):
    out = set(); todo = list(es); seen = set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if e.decl().name() in poly._VIDX: out.add(e.decl().name())
        else: todo.extend(e.children())
    return out

def ratl(x):
    import numpy as np
    if isinstance(x, np.ndarray): x = x.item()
    if isinstance(x, poly.Ext): raise Unsupported("square root left in a result")
    r = poly.Rat.lift(x)
    if r is None: raise Unsupported(f"not a rational function: {type(x).__name__}")
    return r

class Task:
    def __init__(self, check, name):
        self.check = check; self.name = name
        self.n_obl = 0; self.n_dis = 0; self.solver_s = 0.0; self.queries = 0; self.paths = 0; self.validated = 0
        self.samples = []; self.bounds = {}; self.vac = 0; self.known = []
        self.timeout = 300000 if check.tier == "quick" else 600000
        self.seed = check.seed
        self._sat_cache = set()

    # -- solver plumbing
    def solve(self, fs, timeout=None, want_model=True, tactic=None):
        s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
        s.set("timeout", int(timeout or self.timeout))
        s.set("random_seed", self.seed % 1000) if tactic is None else None
        for f in fs: s.add(f)
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        self.queries += 1
        return r, (s.model() if r == z3.sat else None)

    def witness(self, assume, label="assumptions"):
        """vacuity guard: the assumptions must be satisfiable."""
        key = tuple(sorted(a.get_id() if hasattr(a, "get_id") else hash(a) for a in assume))
        if key in self._sat_cache: return
        r, _ = self.solve(list(assume))
        if r != z3.sat: raise Inconclusive(f"vacuity witness not satisfiable ({label}): {r}")
        self._sat_cache.add(key); self.vac += 1

    def prove(self, label, claim, assume=(), case=None, family=None, timeout=None, prefer=()):
        """claim holds for every value satisfying assume; case(model) -> replay case (dict)."""
        self.n_obl += 1
        if isinstance(claim, bool): claim = z3.BoolVal(claim)
        if isinstance(claim, zsym.BoolT): claim = claim.e
        if zsym.CTX.task_level: assume = list(assume) + list(zsym.CTX.path) + list(poly.DOMAIN)
        neg = z3.Not(claim)
        r, m = self.solve(list(assume) + [neg], timeout)
        if r == z3.unsat:
            self.n_dis += 1
            if len(self.samples) < 2: self.samples.append(f"{self.name}: {label}: unsat")
            return True
        if r == z3.unknown:
            raise Inconclusive(f"{self.name}: {label}: solver gave no answer")
        for extra in ([list(prefer)] if prefer else []):
            r2, m2 = self.solve(list(assume) + [neg] + extra, 20000)
            if r2 == z3.sat: m = m2; break
        self.refuted(label, m, case, family)
        return False

    def equal(self, label, a, b, case=None, base=None, family=None, radius=Fraction(1, 4), assume=()):
        """a == b as rational functions wherever both are defined; case(model or env) -> replay case.
        base: name -> rational, a point of the domain around which counterexamples are sought."""
        a = ratl(a); b = ratl(b)
        self.n_obl += 1
        def den(r): return [poly.to_z3(poly.FACTORS[f]) for f in r.den]
        def side(r, o):
            fs = [poly.to_z3(r.num)]
            for f, e in o.den.items(): fs += [poly.to_z3(poly.FACTORS[f])] * e
            if o.q != 1: fs.append(z3.RealVal(o.q))
            return z3.Product(*fs) if len(fs) > 1 else fs[0]
        nz = [z3.simplify(d != 0) if False else d != 0 for d in {**{f: poly.to_z3(poly.FACTORS[f]) for f in a.den}, **{f: poly.to_z3(poly.FACTORS[f]) for f in b.den}}.values()]
        same = a.q == b.q and a.den == b.den
        neg = (poly.to_z3(a.num) != poly.to_z3(b.num)) if same else (side(a, b) != side(b, a))
        d = a - b
        if not d.num:
            r, m = self.solve(nz + [neg])
            if r == z3.unsat:
                self.n_dis += 1
                if len(self.samples) < 2: self.samples.append(f"{self.name}: {label}: unsat ({len(a.num)} monomials)")
                return True
            if r == z3.unknown: raise Inconclusive(f"{self.name}: {label}: solver gave no answer")
        pc = []
        if zsym.CTX.task_level:
            pc = list(zsym.CTX.path) + list(poly.DOMAIN)
            q = poly.equations(zsym.CTX.raw)
            if q:
                rem, divs = poly.eliminate(d.num, q)
                if not rem and self.solve([poly.to_z3(x) != 0 for x in divs] + [poly.to_z3(rem) != 0])[0] == z3.unsat:
                    self.n_dis += 1; return True
            r, m = self.solve(pc + nz + [neg], 30000)
            if r == z3.unsat:
                self.n_dis += 1; return True
            if r == z3.sat: seeds = [Env({n: mfrac(m, poly.ZV[i]) for i, n in enumerate(poly.VARS)})]
            else: seeds = []
        # not identical: concrete counterexample near the base point, one free variable at a time
        base = dict(base or {})
        rng = random.Random(self.seed)
        names = [poly.VARS[i] for i in poly.pvars(d.num)]
        last = None
        assume = list(assume) + pc; pv = zvars(zsym.CTX.path) if pc else set()
        for attempt in range(12):
            env = {n: Fraction(base.get(n, 0)) + (Fraction(0) if attempt == 0 else Fraction(rng.randint(-4, 4), 32)) for n in poly.VARS}
            if pc:
                e0 = Env(env)      # moved to a point of the path
                env = {n: (e0[n] if n in pv else env[n]) for n in env}
            order = names[:]; rng.shuffle(order)
            for v in (order[:4] or [None]):
                e2 = {n: x for n, x in env.items() if n != v}
                s = z3.Solver(); s.set("timeout", 20000)
                zv = poly.ZV[poly._VIDX[v]] if v is not None else None
                num, _ = poly.psubst(d.num, e2)
                s.add(poly.to_z3(num) != 0)
                for f in d.den:
                    p, _ = poly.psubst(poly.FACTORS[f], e2); s.add(poly.to_z3(p) != 0)
                if v is not None:
                    c = z3.RealVal(str(env[v])); s.add(zv >= c - z3.RealVal(str(radius)), zv <= c + z3.RealVal(str(radius)))
                for x in assume:
                    s.add(z3.substitute(x, *[(poly.ZV[poly._VIDX[n]], z3.RealVal(str(q))) for n, q in e2.items()]))
                t0 = time.time(); r = s.check(); self.solver_s += time.time() - t0; self.queries += 1
                if r != z3.sat: continue
                full = dict(e2)
                if v is not None: full[v] = mfrac(s.model(), zv)
                try: self.refuted(label, Env(full), case, family)
                except Inconclusive as ex: last = ex; continue
                return False
        if pc:
            for e0 in seeds:
                try: self.refuted(label, e0, case, family)
                except Inconclusive as ex: last = ex; continue
                return False
        raise last or Inconclusive(f"{self.name}: {label}: identity not confirmed and no counterexample found")

    def equals(self, label, A, B, **kw):
        """entrywise equal; shapes must agree."""
        import numpy as np
        A = np.asarray(symnp.unwrap(symnp.asobj(A))); B = np.asarray(symnp.unwrap(symnp.asobj(B)))
        if A.shape != B.shape:
            self.n_obl += 1
            c = kw.get("case"); env = Env({n: Fraction((kw.get("base") or {}).get(n, 0)) for n in poly.VARS})
            self.report(label + f": shape {A.shape}, expected {B.shape}", c(env) if callable(c) else c, kw.get("family")); return False
        ok = True
        for pos in np.ndindex(*A.shape): ok = self.equal(f"{label}{list(pos) if pos else ''}", A[pos], B[pos], **kw) and ok
        return ok

    def refuted(self, label, model, case, family):
        c = case(model) if callable(case) else case
        self.report(label, c, family)

    def report(self, label, c, family=None):
        family = family or self.check.default_family
        c = jsonable(c)
        fn = self.check.replays[family]
        bad, msg = fn(unjson(json.loads(json.dumps(c))))
        if not bad:
            raise Inconclusive(f"{self.name}: {label}: counterexample does not reproduce on the real code: {json.dumps(c)[:600]} / {msg}")
        rec = dict(task=self.name, label=label, family=family, case=c, observed=msg)
        k = self.check.known_match(rec)
        if k is not None:
            self.known.append((k, msg)); self.n_dis += 1
            return
        raise Violation(rec)

    def result(self):
        return dict(name=self.name, n_obl=self.n_obl, n_dis=self.n_dis, solver_s=self.solver_s + zsym.CTX.solver_time,
                    queries=self.queries + zsym.CTX.solver_calls, paths=self.paths, validated=self.validated, samples=self.samples,
                    bounds=self.bounds, vac=self.vac, known=self.known, calls=dict(symnp.CALLS), extra=dict(self.check.extra))

class Check:
    def __init__(self, pid, bounds_text, outside, explanation, modules=()):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tasks = []
        self.replays = {}
        self.default_family = None
        self.bounds_text = bounds_text; self.outside = outside; self.explanation = explanation
        self.modules = modules
        self.assumptions = []
        self.known_findings = self._load_known()
        self.extra = {}
        self.setup = []      # run in the parent before forking

    def _load_known(self):
        out = []
        p = os.path.join(VERIF, "known-findings.json")
        if os.path.exists(p):
            for e in json.load(open(p)).get("findings", []):
                if e["property"] == self.pid: out.append(e)
        return out

    def known_match(self, rec):
        for e in self.known_findings:
            f = self.replays.get("known:" + e["id"])
            if f is not None and f(rec): return e["id"]
        return None

    def task(self, fn, name=None, **kw):
        self.tasks.append((name or (fn.__name__ + (str(kw) if kw else "")), fn, kw))

    def family(self, name):
        def d(f):
            def floats(case):          # replays run the real code on floating-point numbers
                keep, zsym.EXACT[0] = zsym.EXACT[0], False
                try: return f(case)
                finally: zsym.EXACT[0] = keep
            self.replays[name] = floats
            if self.default_family is None: self.default_family = name
            return f
        return d

    # -- execution
    def main(self):
        ap = argparse.ArgumentParser()
        ap.add_argument("--replay"); ap.add_argument("--only"); ap.add_argument("--serial", action="store_true")
        ap.add_argument("--tier")
        a = ap.parse_args()
        if a.tier: self.tier = a.tier
        if a.replay:
            rec = json.load(open(a.replay))
            bad, msg = self.replays[rec["family"]](unjson(rec["case"]))
            print(("REPRODUCED " if bad else "not reproduced ") + str(msg))
            sys.exit(1 if bad else 0)
        t0 = time.time()
        for f in self.setup: f()
        tasks = [t for t in self.tasks if not a.only or a.only in t[0]]
        limit = float(os.environ.get("VERIF_LIMIT", "780" if self.tier == "quick" else "7200"))
        results, viols, errors = self._pool(tasks, limit, 1 if a.serial else int(os.environ.get("VERIF_JOBS", "8")), a.serial)
        wall = time.time() - t0
        ev = self._evidence(results, viols, errors, wall)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        seen = set()
        for r in results:
            for k, msg in r["known"]:
                if k not in seen:
                    seen.add(k); print(f"KNOWN-FINDING: property={self.pid} {k}: {msg}")
        for n, e in errors: print(f"INCONCLUSIVE {self.pid} {n}: {e}", file=sys.stderr)
        if viols:
            d = os.path.join(VERIF, "evidence", "replay"); os.makedirs(d, exist_ok=True)
            for i, v in enumerate(viols[:5]):
                p = os.path.join(d, f"{self.pid}-{i}.json")
                v["rerun"] = f"bash {VERIF}/run.sh {self.pid} --replay {p}"
                json.dump(v, open(p, "w"), indent=1)
                print(f"  {v['task']}: {v['label']}: {str(v['observed'])[:400]}")
                print(f"VIOLATION property={self.pid} replay={p}")
            sys.stdout.flush(); os._exit(1)
        if errors:
            os._exit(2)
        tot = sum(r["n_obl"] for r in results)
        print(f"{self.pid}: {tot} obligations discharged in {len(results)} tasks, {wall:.1f} s")
        sys.stdout.flush()
        os._exit(0)

    def _run_one(self, t):
        name, fn, kw = t
        zsym.reset(); poly.DOMAIN.clear(); poly.set_trunc()
        task = Task(self, name)
        try:
            try: fn(task, **kw)
            except zsym.NeedsPaths:
                task = Task(self, name)
                self._explore(task, fn, kw)
            return ("ok", task.result())
        except Violation as v:
            return ("viol", v.rec, task.result())
        except Inconclusive as e:
            return ("err", name, str(e))
        except Unsupported as e:
            return ("err", name, "not representable: " + str(e) + "\n" + traceback.format_exc()[-1500:])
        except Exception as e:
            return ("err", name, traceback.format_exc()[-2500:])

    max_task_paths = 96
    def _explore(self, task, fn, kw):
        """the code branches on symbolic data: run the task once per path, each path with its condition assumed"""
        work = [[]]; n = 0; t0 = time.time()
        while work:
            n += 1
            if n > self.max_task_paths or time.time() - t0 > 400: raise Inconclusive(f"{n} paths explored, more remain")
            c = zsym.reset(); poly.DOMAIN.clear()
            c.assume = poly.DOMAIN; c.task_level = True; c.exploring = True; c.branch_timeout = 3000
            c.decisions = work.pop()
            try: fn(task, **kw)
            except zsym.PathAbort: pass
            work.extend(c.new)
            task.solver_s += c.solver_time; task.queries += c.solver_calls
        zsym.reset()

    def _pool(self, tasks, limit, jobs, serial):
        results, viols, errors = [], [], []
        t0 = time.time()
        if serial:
            for t in tasks:
                s = time.time()
                r = self._run_one(t)
                print(f"   [{time.time()-s:6.1f}s] {t[0]} {r[0]}", file=sys.stderr)
                if r[0] == "err": print(r[2], file=sys.stderr)
                self._take(r, results, viols, errors)
            return results, viols, errors
        pend = list(tasks); running = {}
        while pend or running:
            while pend and len(running) < jobs and not viols:
                t = pend.pop(0)
                rd, wr = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(rd)
                    try:
                        os.setpgid(0, 0)
                        r = self._run_one(t)
                        data = pickle.dumps(r)
                    except BaseException as e:
                        data = pickle.dumps(("err", t[0], repr(e)))
                    with os.fdopen(wr, "wb") as fh: fh.write(data)
                    os._exit(0)
                os.close(wr)
                running[rd] = (pid, t, b"", time.time())
            if viols or not running: 
                for rd, (pid, t, b, s) in running.items():
                    try: os.kill(pid, signal.SIGKILL)
                    except ProcessLookupError: pass
                    os.waitpid(pid, 0); os.close(rd)
                running = {}
                if viols: break
                continue
            left = limit - (time.time() - t0)
            if left <= 0:
                for rd, (pid, t, b, s) in running.items():
                    os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(rd)
                    errors.append((t[0], "time limit"))
                for t in pend: errors.append((t[0], "not started within the time limit"))
                break
            ready, _, _ = select.select(list(running), [], [], min(left, 1.0))
            for rd in ready:
                chunk = os.read(rd, 1 << 20)
                pid, t, b, s = running[rd]
                if chunk:
                    running[rd] = (pid, t, b + chunk, s)
                else:
                    os.close(rd); os.waitpid(pid, 0); del running[rd]
                    r = pickle.loads(b) if b else ("err", t[0], "worker died (memory?)")
                    if os.environ.get("VERIF_VERBOSE"): print(f"   [{time.time()-s:6.1f}s] {t[0]} {r[0]}", file=sys.stderr)
                    self._take(r, results, viols, errors)
        return results, viols, errors

    def _take(self, r, results, viols, errors):
        if r[0] == "ok": results.append(r[1])
        elif r[0] == "viol": viols.append(r[1]); results.append(r[2])
        else: errors.append((r[1], r[2]))

    def _evidence(self, results, viols, errors, wall):
        calls = {}
        for r in results:
            for k, v in r["calls"].items(): calls[k] = calls.get(k, 0) + v
        samples = []
        for r in results: samples += r["samples"]
        cov = dict(
            states=sum(r["paths"] for r in results),
            transitions=sum(calls.values()),
            traces_validated_against_impl=sum(r["validated"] for r in results),
            samples=samples[:12],
            meaning="states: symbolic end states (one per explored path and configuration); transitions: calls of repository "
                    "functions (or traced graph operations) executed symbolically; traces_validated: concrete runs in which the "
                    "encoding was compared with the real code",
            obligations_discharged=sum(r["n_dis"] for r in results), obligations=sum(r["n_obl"] for r in results),
            solver_queries=sum(r["queries"] for r in results), solver_s=round(sum(r["solver_s"] for r in results), 3),
            vacuity_witnesses=sum(r["vac"] for r in results),
            functions_encoded={k: calls[k] for k in sorted(calls)},
            bounds=self.bounds_text, outside_the_claim=self.outside,
            configurations=[r["name"] for r in results][:400],
            explanation=self.explanation, inconclusive=[f"{n}: {e[:200]}" for n, e in errors])
        return dict(property=self.pid, tier=self.tier if self.tier in ("quick", "thorough") else "quick", seed=self.seed, level="model_checking", coverage=cov,
                    assumptions=list(self.assumptions), wall_s=round(wall, 2), violations=len(viols))
