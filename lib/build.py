"""Builds the jajapy objects described by specs and reads them back."""
import jajapy as ja
import numpy as np
from gen import init_row
from ref import text
from shard import Violation


class Sub:
    def __init__(self, name, gen, run, quick, thorough=None, rule="", mode="any", cpu=60):
        self.name, self.gen, self.run, self.quick = name, gen, run, quick
        self.thorough = thorough if thorough is not None else quick * 15
        self.rule, self.mode = rule, mode
        self.cpu = cpu        # seconds; a case normally takes milliseconds; reaching this means it does not terminate


def as_init(init, how="list"):
    if isinstance(init, int):
        return init
    return np.array(init) if how == "array" else list(init)


def transitions(spec, zeros=False):
    n, k = spec["n"], spec["kind"]
    res = []
    if k == "MDP":
        for s in range(n):
            for a, row in zip(spec["actions"], spec["P"][s]):
                if row is not None:
                    res += [(s, a, t, x) for t, x in enumerate(row) if x > 0 or zeros]
        return res
    rows = spec["R"] if k == "CTMC" else spec["T"] if k == "PCTMC" else spec["P"]
    for s in range(n):
        res += [(s, t, x) for t, x in enumerate(rows[s]) if x is not None and (x if k == "PCTMC" else (x > 0 or zeros))]
        if k == "MC" and not any(rows[s]):
            res.append((s, s, 0.0))
    return res


def build(spec, perm=None, name=None, how="list"):
    """through the create* functions; perm reorders the lists of transitions"""
    k = spec["kind"]
    tr = transitions(spec)
    if perm:
        tr = perm(tr)
    kw = {} if name is None else {"name": name}
    init = as_init(spec["init"], how)
    if k == "MC":
        return ja.createMC(tr, list(spec["labels"]), init, **kw)
    if k == "MDP":
        return ja.createMDP(tr, list(spec["labels"]), init, **kw)
    if k == "CTMC":
        return ja.createCTMC(tr, list(spec["labels"]), init, **kw)
    if k == "PCTMC":
        return ja.createPCTMC(tr, list(spec["labels"]), list(spec["params"]), init, dict(spec["values"]), **kw)
    if k == "HMM":
        em = [(s, o, x) for s in range(spec["n"]) for o, x in zip(spec["alphabet"], spec["E"][s]) if x > 0]
        if perm:
            em = perm(em)
        return ja.createHMM(tr, em, init, **kw)
    if k == "GOHMM":
        return ja.createGoHMM(tr, [[tuple(x) for x in row] for row in spec["out"]], init, **kw)
    raise ValueError(k)


def mkset(traces, t=None):
    """a Set with multiplicities"""
    return ja.Set([list(x) for x, _ in traces], [m for _, m in traces], t)


def set_type(spec, timed=False):
    return {"MC": 0, "HMM": 0, "MDP": 1, "GOHMM": 3}.get(spec["kind"], 4 if timed else 0)


def snapshot(m):
    """everything a model answers, as plain values (exact)"""
    n = m.nb_states
    k = type(m).__name__
    s = dict(kind=k, n=n, name=m.name, pi=[float(m.pi(i)) for i in range(n)])
    if k in ("MC", "MDP", "CTMC", "PCTMC"):
        s["labels"] = [m.getLabel(i) for i in range(n)]
        s["alphabet"] = sorted(m.getAlphabet())
    if k == "MC":
        s["P"] = [[float(m.a(i, j)) for j in range(n)] for i in range(n)]
    elif k == "MDP":
        s["actions"] = list(m.getActions())
        s["P"] = {a: [[float(m.a(i, j, a)) for j in range(n)] for i in range(n)] for a in s["actions"]}
    elif k == "CTMC":
        s["R"] = [[float(m.l(i, j, s["labels"][i])) for j in range(n)] for i in range(n)]
    elif k == "PCTMC":
        s["X"] = [[text(m.transitionExpression(i, j)) for j in range(n)] for i in range(n)]
        s["params"] = list(m.parameter_str)
        s["values"] = {p: repr(float(m.parameterValue(p))) for p in m.parameter_str}
        s["idx"] = {p: sorted(map(list, m.parameterIndexes(p))) for p in m.parameter_str}
    elif k == "HMM":
        s["alphabet"] = list(m.getAlphabet())
        s["P"] = [[float(m.a(i, j)) for j in range(n)] for i in range(n)]
        s["E"] = {o: [float(m.b(i, o)) for i in range(n)] for o in s["alphabet"]}
    elif k == "GoHMM":
        s["P"] = [[float(m.a(i, j)) for j in range(n)] for i in range(n)]
        s["out"] = [[[float(y) for y in x] for x in row] for row in m.output]
    return s


def set_snapshot(t):
    return (t.type, sorted((repr(list(x)), int(c)) for x, c in zip(t.sequences, t.times)))


def is_prob_row(ctx, row, msg):
    tot = 0.0
    for x in row:
        ctx.check(x >= 0.0 and x <= 1.0 + 1e-9, msg + ": probability out of range", row)
        tot += x
    ctx.check(abs(tot - 1.0) < 1e-6, msg + ": sums to %r" % tot, row)


def direct(spec, order):
    """through the constructors, states renumbered: new state i is old state order[i] (old n is the initial one)"""
    n, k = spec["n"], spec["kind"]
    lab = (list(spec["labels"]) + ["init"])
    ini = init_row(spec["init"], n) + [0.0]
    if k == "MDP":
        na = len(spec["actions"])
        full = [[(row if row is not None else [0.0] * n) + [0.0] for row in rows] for rows in spec["P"]] + [[ini] * na]
        M = np.array([[[full[s][a][t] for t in order] for a in range(na)] for s in order])
        return ja.MDP(M, [lab[s] for s in order], list(spec["actions"]))
    full = [list(row) + [0.0] for row in (spec["R"] if k == "CTMC" else spec["P"])] + [ini]
    M = np.array([[full[s][t] for t in order] for s in order])
    return (ja.MC if k == "MC" else ja.CTMC)(M, [lab[s] for s in order])


def build_any(case):
    """case: dict(model=spec, order=None or permutation)"""
    if case.get("order"):
        return direct(case["model"], case["order"])
    return build(case["model"])


def copies(traces):
    """the traces as a list of lists, repetitions interleaved"""
    res, k = [], 0
    while True:
        layer = [list(t) for t, m in traces if m > k]
        if not layer:
            return res
        res += layer
        k += 1


def numbers(m):
    """snapshot where the rate expressions of a PCTMC are replaced by their values"""
    s = snapshot(m)
    s.pop("name")
    if s["kind"] == "PCTMC":
        from ref import ev
        v = {p: float(m.parameterValue(p)) for p in s["params"]}
        s["R"] = [[ev(x, v) for x in row] for row in s.pop("X")]
        s["values"] = v
    return s


def same(ctx, a, b, msg, rel=1e-9, abs_=1e-12):
    """compares two nested structures, numbers up to rounding"""
    if isinstance(b, dict):
        ctx.check(isinstance(a, dict) and set(a) == set(b), msg + ": different keys", a, b)
        for k in b:
            same(ctx, a[k], b[k], "%s, %s" % (msg, k), rel, abs_)
    elif isinstance(b, (list, tuple)):
        ctx.check(isinstance(a, (list, tuple)) and len(a) == len(b), msg + ": different lengths", a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            same(ctx, x, y, "%s[%d]" % (msg, i), rel, abs_)
    elif isinstance(b, float):
        ctx.close(a, b, msg, rel, abs_)
    else:
        ctx.check(a == b, "%s: %r instead of %r" % (msg, a, b))
