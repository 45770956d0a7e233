"""C06: simulated traces are well-formed, possible, and counted exactly."""
import math
from collections import Counter
import gen
from build import Sub, build_any, set_type
from ref import Ref
import jajapy as ja

KINDS = ["MC", "MDP", "CTMC", "PCTMC", "HMM", "GOHMM"]


def number(x):
    return isinstance(x, float)  # numpy floats included


def possible(ref, tr, timed=False, start=None):
    """None, or why the model cannot produce tr (set propagation over the supports)"""
    k = ref.kind
    cur = {start} if start is not None else {s for s, p in enumerate(ref.init) if p > 0}
    if k in ("HMM", "GOHMM"):
        for i, o in enumerate(tr):
            if k == "GOHMM":
                if not (isinstance(o, list) and len(o) == ref.spec["d"] and all(number(x) and math.isfinite(x) for x in o)):
                    return "observation %d is not a vector of %d numbers: %r" % (i, ref.spec["d"], o)
            else:
                cur = {s for s in cur if ref.emit(s, o) > 0}
            if not cur:
                return "observation %d impossible: %r" % (i, o)
            cur = {t for s in cur for t in ref.P[s]}
        return None
    step = 2 if k == "MDP" or timed else 1
    obs = tr[0::step]
    side = tr[1::2] if step == 2 else None
    for i, o in enumerate(obs):
        cur = {s for s in cur if ref.labels[s] == o}
        if not cur:
            return "label %d impossible: %r" % (i, o)
        if i == len(obs) - 1:
            return None
        if k in ("CTMC", "PCTMC"):
            if timed:
                t = side[i]
                if not (number(t) and t >= 0):
                    return "dwell time %d: %r" % (i, t)
                cur = {s for s in cur if not ref.P[s]} if math.isinf(t) else \
                    {t_ for s in cur for t_ in ref.P[s]}
            else:
                cur = {t_ for s in cur for t_ in (ref.P[s] or {s: 1})}
        elif k == "MDP":
            if side[i] not in ref.actions:
                return "unknown action %r" % (side[i],)
            cur = {t_ for s in cur for t_ in ref.P[s].get(side[i], {})}
        else:
            cur = {t_ for s in cur for t_ in ref.P[s]}
        if not cur:
            return "step %d impossible" % i
    return None


def steps_of(kind, tr, timed):
    """number of steps of a trace, None when malformed"""
    if kind in ("HMM", "GOHMM"):
        return len(tr)
    if kind == "MDP" or timed:
        return (len(tr) - 1) // 2 if len(tr) % 2 == 1 else None
    return len(tr) - 1


def gen_model(r):
    k = r.pick(["MC", "MDP", "CTMC", "CTMC", "HMM", "GOHMM", "PCTMC"])
    c = dict(model=gen.ANY[k](r) if k != "PCTMC" else gen.pctmc(r, hi=3, big=3))
    if k in ("MC", "MDP", "CTMC") and r.chance(1, 3):
        c["order"] = r.shuffle(range(c["model"]["n"] + 1))
    c["timed"] = k in ("CTMC", "PCTMC") and r.chance(1, 2)
    if k == "MDP":
        c["sched"] = gen_sched(r, c["model"])
    return c


def gen_sched(r, m):
    """uniform, or memoryless over available actions (for the states in the order of the spec)"""
    if r.chance(1, 2):
        return None
    return [m["actions"][r.pick([i for i, x in enumerate(rows) if x is not None])] for rows in m["P"]] + \
        [r.pick(m["actions"])]


def sched_of(case):
    m = case["model"]
    if case["sched"] is None:
        return ja.UniformScheduler(list(m["actions"]))
    order = case.get("order") or range(m["n"] + 1)
    return ja.MemorylessScheduler([case["sched"][s] for s in order])


def gen_run(r):
    c = gen_model(r)
    k = c["model"]["kind"]
    c["steps"] = [r.int(0, 12) for _ in range(r.int(1, 5))]
    if k in ("MC", "MDP", "HMM", "GOHMM") and r.chance(1, 3):
        c["current"] = r.int(0, c["model"]["n"] - 1)
    return c


def runner(case, m):
    k = case["model"]["kind"]
    kw = {}
    if case.get("current") is not None:
        order = case.get("order")
        kw["current"] = case["current"] if not order else order.index(case["current"])
    if case["timed"]:
        kw["timed"] = True
    if k == "MDP":
        sched = sched_of(case)
        return lambda n: m.run(n, sched, **kw)
    return lambda n: m.run(n, **kw)


def run_run(case, ctx):
    spec = case["model"]
    k = spec["kind"]
    ctx.tag(k + (" timed" if case["timed"] else ""))
    ctx.nontrivial(spec["n"] > 1 and max(case["steps"]) > 1)
    m = build_any(case)
    ref = Ref(spec)
    f = runner(case, m)
    for n in case["steps"]:
        tr = f(n)
        ctx.check(isinstance(tr, list), "run returned %r" % type(tr))
        ctx.check(steps_of(k, tr, case["timed"]) == n, "run(%d): wrong number of steps" % n, tr)
        why = possible(ref, tr, case["timed"], case.get("current"))
        ctx.check(why is None, "run: impossible trace, %s" % why, tr)
        if k == "MDP" and case["sched"] is not None and len(set(spec["labels"])) == spec["n"]:
            lab = ref.labels
            for o, a in zip(tr[0::2], tr[1::2]):
                ctx.check(a == case["sched"][lab.index(o)], "not the action of the scheduler", o, a)


def gen_set(r):
    c = gen_model(r)
    k = c["model"]["kind"]
    lo = 1 if k in ("HMM", "GOHMM") else 0
    way = r.pick(["int", "list", "geo"])
    c["size"] = r.int(1, 30 if k != "PCTMC" else 6)
    if k != "PCTMC" and r.chance(1, 25):
        c["size"] = r.int(100, 600)
    if way == "int":
        c["param"] = r.int(lo, 6)
    elif way == "list":
        c["param"] = [r.int(lo, 6) for _ in range(c["size"])]
    else:
        c["param"] = r.pick([0.3, 0.5, 0.9, 1.0])
        c["min"] = r.int(0, 5)
    c["way"] = way
    return c


def run_set(case, ctx):
    spec = case["model"]
    k, timed, size = spec["kind"], case["timed"], case["size"]
    ctx.tag(k + (" timed" if timed else ""))
    ctx.tag(case["way"])
    m = build_any(case)
    ref = Ref(spec)
    args = [size, case["param"]]
    kw = {}
    if k == "MDP":
        args.append(sched_of(case))
    if case["way"] == "geo":
        kw = dict(distribution="geo", min_size=case["min"])
    if timed:
        kw["timed"] = True
    s = m.generateSet(*args, **kw)
    ctx.nontrivial(len(s.sequences) > 1 and max(s.times) > 1 or (len(s.sequences) > 1 and (timed or k == "GOHMM")))
    ctx.check(s.type == set_type(spec, timed), "type of the set: %r" % s.type)
    ctx.check(len(s.sequences) == len(s.times), "sequences and times do not match")
    ctx.check(all(int(c) == c and c > 0 for c in s.times), "multiplicities", list(s.times))
    ctx.check(sum(s.times) == size, "%r traces instead of %d" % (sum(s.times), size))
    ctx.check(len({repr(x) for x in s.sequences}) == len(s.sequences), "traces not distinct", s.sequences)
    lens = Counter()
    for tr, c in zip(s.sequences, s.times):
        why = possible(ref, tr, timed)
        ctx.check(why is None, "generateSet: impossible trace, %s" % why, tr)
        n = steps_of(k, tr, timed)
        ctx.check(n is not None, "malformed trace", tr)
        lens[n] += int(c)
    if case["way"] == "int":
        want = Counter({case["param"]: size})
    elif case["way"] == "list":
        want = Counter(case["param"])
    else:
        ctx.check(min(lens) >= case["min"] + 1, "shorter than min_size+1", dict(lens))
        if case["param"] == 1.0:
            ctx.check(set(lens) == {case["min"] + 1}, "geometric lengths with parameter 1", dict(lens))
        return
    ctx.check(lens == want, "lengths", dict(lens), dict(want))


# ------------------------------------------------------------------ states without any leaving transition
def gen_dead(r):
    """as the leaves of the models learned by Alergia and IOAlergia"""
    m = gen.ANY[r.pick(["MC", "MDP"])](r, lo=2)
    n = m["n"]
    for s in r.shuffle(range(n))[:r.int(1, max(1, n // 2))]:
        m["P"][s] = [0.0] * n if m["kind"] == "MC" else [None] * len(m["actions"])
    c = dict(model=m, order=r.shuffle(range(n + 1)), timed=False, steps=[r.int(0, 12) for _ in range(r.int(1, 5))])
    if m["kind"] == "MDP":
        c["sched"] = None if r.chance(1, 2) else \
            [m["actions"][r.pick([i for i, x in enumerate(rows) if x is not None] or [0])] for rows in m["P"]] + \
            [r.pick(m["actions"])]
    return c


def run_dead(case, ctx):
    spec = case["model"]
    m, ref = build_any(case), Ref(spec)
    f = runner(case, m)
    live = [{t for x in (ref.P[s].values() if spec["kind"] == "MDP" else [ref.P[s]]) for t in x} for s in range(ref.n)]
    for n in case["steps"]:
        cur, stuck = {ref.n - 1}, False
        for _ in range(n):
            stuck = stuck or any(not live[s] for s in cur)
            cur = {t for s in cur for t in live[s]}
        ctx.tag("%s %s" % (spec["kind"], "may be stuck" if stuck else "never stuck"))
        ctx.nontrivial(stuck)
        try:
            tr = f(n)
        except Exception:
            ctx.check(stuck, "run(%d) fails" % n)
            continue
        ctx.check(steps_of(spec["kind"], tr, False) == n, "run(%d): wrong number of steps" % n, tr)
        why = possible(ref, tr)
        ctx.check(why is None, "run: impossible trace, %s" % why, tr)


SUBS = [
    Sub("run", gen_run, run_run, 14000, 60000,
        "random model of each kind (states renumbered for a third), run with 0-12 steps from the initial distribution "
        "or a given state, uniform or memoryless scheduler; set propagation decides whether the trace is possible; "
        "non-trivial: several states and steps"),
    Sub("generateSet", gen_set, run_set, 9000, 40000,
        "fixed, listed or geometric lengths; up to 30 traces (up to 600 for one case in 25); types, multiplicities, distinctness, lengths and possibility; "
        "non-trivial: several distinct traces (one repeated unless continuous)"),
    Sub("dead", gen_dead, run_dead, 2000, 20000,
        "MC and MDP with states without any leaving transition: refused, or a possible trace of the requested length; "
        "non-trivial: such a state can be reached", cpu=10),
]
