"""C08: Parallel LQT equals sequential LQT (NumPy)."""
import importlib
from checks import c07
from checks.c07 import *

chk = Check("C08",
    bounds_text=c07.chk.bounds_text,
    outside="larger sizes and horizons, singular control costs or control transformations, points where I + C J is singular, rounding",
    explanation="NumPy source of the parallel passes executed on exact rational functions; every output asserted equal to exact dynamic programming, which the sequential passes equal (C07)")
chk.assumptions = c07.chk.assumptions

@chk.family("lqtpar")
def replay(case):
    m = importlib.import_module("parallel_control.lqt_np")
    d, T, n, mu, x0 = cdict(case)
    V, K, D, B = dp(d, T, n, mu); S, v = split(V, n); us, xs = rollout(d, T, K, D, x0)
    part = case.get("part", "all")
    try:
        q = mklqt(m, d, T); X0 = fl(x0)
        K_, D_, S_, v_ = [[fl(a) for a in l] for l in (K, D, S, v)]
        if part in ("all", "bwd"):
            for nm, g, w in zip(("gain", "offset", "value matrix", "value vector"), q.parBackwardPass(), (K, D, S, v)):
                e = cmp_lists("parallel backward pass " + nm, g, w)
                if e: return True, e
        for nm, f in (("fwd", lambda: q.parForwardPass(X0.copy(), K_, D_)), ("fb", lambda: q.parFwdBwdPass(X0.copy(), K_, D_, S_, v_)), ("fb2", lambda: q.parFwdBwdPass2(X0.copy(), K_, D_, S_, v_))):
            if part in ("all", nm):
                for a, b, w in zip(f(), (us, xs), ("control", "state")):
                    e = cmp_lists({"fwd": "parallel forward pass", "fb": "forward-backward pass", "fb2": "second forward-backward pass"}[nm] + " " + w, a, b)
                    if e: return True, e
    except Exception as ex:
        return True, f"{part} raises {type(ex).__name__}: {ex}"
    return False, "agrees"

def al(l): return [arr(np.array(a, copy=True)) for a in l]
def run(t, part, n, m, p, T, sym, seed=1, pT=None):
    c = Conf(t, n, m, p, T, sym, seed, pT, part=part); mod = symnp.load("lqt_np"); t.paths += 1
    q = c.P.make(mod)
    K, D, S, v = al(c.K), al(c.D), al(c.S), al(c.v)
    f = {"bwd": lambda: q.parBackwardPass(), "fwd": lambda: q.parForwardPass(c.P.x0a(), K, D), "fb": lambda: q.parFwdBwdPass(c.P.x0a(), K, D, S, v),
         "fb2": lambda: q.parFwdBwdPass2(c.P.x0a(), K, D, S, v)}[part]
    r = guard(t, c, f)
    if r is None: return
    for nm, g, w in zip(("gain", "offset", "S", "v") if part == "bwd" else ("u", "x"), r, (c.K, c.D, c.S, c.v) if part == "bwd" else (c.us, c.xs)): eqlist(t, c, nm, g, w)

def validate(t):
    for s in range(12):
        rng = random.Random(t.seed * 100 + s)
        n, m, p, T = rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 9)
        case = Prob(n, m, p, T, (), seed=t.seed + s, pT=rng.randint(1, 3), x0sym=False).case(Env(), part="all"); t.validated += 1
        bad, msg = replay(dict(case))
        if bad: t.report("concrete validation", case)

if __name__ == "__main__":
    big = chk.tier == "thorough"
    names = {"bwd": "parallel backward", "fwd": "parallel forward", "fb": "forward-backward", "fb2": "forward-backward 2"}
    for part in names:
        lin = [(2, 1, 2, 4, None), (3, 2, 2, 5, None), (2, 2, 1, 6, 2), (1, 1, 1, 9, None), (2, 3, 1, 2, None), (2, 1, 1, 8, None)] + ([(4, 2, 3, 7, 1), (2, 2, 2, 13, None)] if big else [])
        for name, kw in confs(full=FULL[:6] if not big else FULL + [(1, 1, 1, 4)], lin=lin, one=(2, 2, 2, 3) if not big else (3, 2, 2, 4)):
            chk.tasks.append((names[part] + " " + name, run, dict(part=part, **kw)))
    chk.task(validate, name="translation validation")
    chk.main()
