"""C21: synchronous composition is the product chain."""
import itertools
import random
import zlib
import numpy as np
import sympy
import gen
from build import Sub, snapshot, transitions, as_init
from ref import Ref, ev, sy, text
from props.c19 import walks, pref
import jajapy as ja

ACTS = ["A", "go", "s1"]


def gen_sync(r, m, acts, rate):
    """synchronous transitions: [source, action, destination, rate]; every action at least once"""
    res, used = [], set()
    for a in acts:
        for _ in range(r.pick([1, 1, 2, 3])):
            s, t = r.int(0, m["n"] - 1), r.int(0, m["n"] - 1)
            if (s, a, t) not in used:
                used.add((s, a, t))
                res.append([s, a, t, rate(r)])
    return r.shuffle(res)


def sources(r, m, key):
    """the first states have no incoming transition"""
    n = m["n"]
    k = r.int(1, n - 1)
    for s in range(n):
        for t in range(k):
            m[key][s][t] = None if key == "T" else 0.0
    for s in range(n):
        if not any(m[key][s]) and not any(m[key][t][s] for t in range(n)):
            m[key][s][n - 1] = "1.5" if key == "T" else 1.5
    m["init"] = r.int(k, n - 1)
    m["sync"] = [x for x in m["sync"] if x[2] >= k] or [[s, a, n - 1, x] for s, a, _, x in m["sync"][:1]]


def gen_ctmcs(r, lo=1, hi=4, big=4):
    acts = ACTS[:r.pick([0, 1, 1, 2, 3])]
    ms = []
    for _ in range(2):
        m = gen.ctmc(r, lo=lo, hi=hi, big=big)
        m["sync"] = gen_sync(r, m, acts, gen.rate)
        if r.chance(1, 3):
            m["order"] = r.shuffle(range(m["n"] + 1))
        ms.append(m)
    if r.chance(1, 5):
        for m in ms:
            if m["n"] > 1:
                sources(r, m, "R")
    return dict(models=ms, change=r.int(0, 50))


def gen_big(r):
    ms = []
    for _ in range(2):
        n = r.int(11, 13)
        m = gen.ctmc(r, n=n, absorbing=False)
        for s in range(n):
            if r.chance(11, 12):
                m["R"][s] = [r.int(1, 4000) / 16 for _ in range(n)]
        m["sync"] = gen_sync(r, m, ACTS[:1], gen.rate)
        ms.append(m)
    return dict(models=ms, change=None)      # instantiate takes a minute on them


def gen_pctmcs(r, count=None):
    k = count or r.pick([2, 2, 2, 3, 3, 4])
    acts = ACTS[:r.pick([0, 1, 1, 2])]
    ms = []
    params = gen.param_pool(r)[:r.int(1, 4)]
    values = {p: gen.pvalue(r) for p in params}
    for i in range(k):
        m = gen.pctmc(r, lo=1, hi=3 if k == 2 else 2, big=4 if k == 2 else 2, nparams=1)
        # parameters of its own, or shared with the other modules
        own = r.shuffle(r.sample(params, r.int(1, len(params))))
        m["params"] = own
        m["values"] = {p: values[p] for p in own if r.chance(5, 6)}
        m["T"] = [[e and (gen.expr(r, own) if r.chance(3, 4) else gen.const(r)) for e in row] for row in m["T"]]
        m["sync"] = gen_sync(r, m, acts, lambda q: gen.expr(q, own) if q.chance(1, 2) else gen.const(q))
        if r.chance(1, 3):
            m["order"] = r.shuffle(range(m["n"] + 1))
        ms.append(m)
    if r.chance(1, 5):
        for m in ms:
            if m["n"] > 1:
                sources(r, m, "T")
    for p in params:      # a value in every module using it, or in none
        if any(p in m["params"] and p not in m["values"] for m in ms):
            for m in ms:
                m["values"].pop(p, None)
    return dict(models=ms, tries=[{p: gen.pvalue(r) for p in params} for _ in range(2)])


def gen_big_pctmcs(r):
    """more than 255 different expressions"""
    case = gen_pctmcs(r, count=2)
    params = sorted({p for m in case["models"] for p in m["params"]})
    for m in case["models"]:
        n = r.int(12, 13)
        big = gen.ctmc(r, n=n, absorbing=False)
        m.update(n=n, labels=big["labels"], init=big["init"])
        m.pop("order", None)
        m["T"] = []
        for s in range(n):
            dense = r.chance(4, 5)
            m["T"].append([("%r*%s" % (r.int(1, 4000) / 16, r.pick(m["params"])) if r.chance(1, 3) else r.int(1, 4000) / 16)
                           if dense or big["R"][s][t] > 0 else None for t in range(n)])
        m["sync"] = gen_sync(r, m, ACTS[:1], gen.rate)
    case["more"] = 0
    assert params
    return case


def module(m):
    n = m["n"]
    order = m.get("order")
    tr = transitions(m)
    sync = [tuple(x) for x in m["sync"]]
    if not order:
        if m["kind"] == "CTMC":
            return ja.createCTMC(tr, list(m["labels"]), as_init(m["init"]), "m", sync)
        return ja.createPCTMC(tr, list(m["labels"]), list(m["params"]), as_init(m["init"]), dict(m["values"]), sync)
    inv = [order.index(s) for s in range(n + 1)]
    lab = list(m["labels"]) + ["init"]
    ini = gen.init_row(m["init"], n)
    sync = [(inv[s], a, inv[t], x) for s, a, t, x in sync]
    tr = [(inv[s], inv[t], x) for s, t, x in tr] + [(inv[n], inv[t], x) for t, x in enumerate(ini) if x > 0]
    lab = [lab[s] for s in order]
    if m["kind"] == "CTMC":
        M = np.zeros((n + 1, n + 1))
        for s, t, x in tr:
            M[s, t] = x
        return ja.CTMC(M, lab, "m", sync)
    M = np.zeros((n + 1, n + 1), dtype="uint16")
    exprs, idx = [sympy.sympify("0.0")], [[] for _ in m["params"]]
    for s, t, x in tr:
        e = sy(x)
        M[s, t] = len(exprs)
        exprs.append(e)
        for p in e.free_symbols:
            idx[m["params"].index(str(p))].append([s, t])
    return ja.PCTMC(M, lab, exprs, dict(m["values"]), idx, list(m["params"]), "m", sync)


def product(ms, vals):
    """(labels, rates {i: {j: rate}}, initial row) of the product chain, 'init' last, useless states removed"""
    sizes = [range(m["n"]) for m in ms]
    states = list(itertools.product(*sizes))
    R = {s: {} for s in states}

    def add(s, t, x):
        if x != 0:
            R[s][t] = R[s].get(t, 0.0) + x

    def val(m, e):
        return ev(e, vals) if isinstance(e, str) else float(e)
    for s in states:
        for k, m in enumerate(ms):
            row = m["R" if m["kind"] == "CTMC" else "T"][s[k]]
            for t, e in enumerate(row):
                if e is not None and e != 0.0:
                    add(s, s[:k] + (t,) + s[k + 1:], val(m, e))
        for a in {x[1] for m in ms for x in m["sync"]}:
            cand = [[(x[2], val(m, x[3])) for x in m["sync"] if x[0] == s[k] and x[1] == a] for k, m in enumerate(ms)]
            for combo in itertools.product(*cand):
                x = 1.0
                for _, y in combo:
                    x *= y
                add(s, tuple(t for t, _ in combo), x)
    init = {}
    rows = [gen.init_row(m["init"], m["n"]) for m in ms]
    for s in states:
        x = 1.0
        for row, i in zip(rows, s):
            x *= row[i]
        if x > 0:
            init[s] = x
    keep = list(states)
    while True:
        into = {t for s in keep for t in R[s]} | set(init)
        new = [s for s in keep if s in into]
        if len(new) == len(keep):
            break
        keep = new
    pos = {s: i for i, s in enumerate(keep)}
    lab = [",".join(m["labels"][i] for m, i in zip(ms, s)) for s in keep]
    return lab, [{pos[t]: x for t, x in R[s].items()} for s in keep], {pos[s]: x for s, x in init.items()}


def reference(ms, vals):
    lab, R, init = product(ms, vals)
    ref = Ref.__new__(Ref)
    ref.kind, ref.n = "CTMC", len(lab) + 1
    ref.labels = lab + ["init"]
    ref.init = [0.0] * len(lab) + [1.0]
    ref.P = R + [init]
    return ref


def compare(ctx, h, vals, ms, seed):
    want = reference(ms, vals)
    got = pref(h, vals)
    ctx.check(got.n == want.n, "number of states: %d instead of %d" % (got.n, want.n), got.labels, want.labels)
    ctx.check(sorted(got.labels) == sorted(want.labels), "labels", got.labels, want.labels)
    ctx.check(sorted(h.getAlphabet()) == sorted(set(want.labels)), "getAlphabet", h.getAlphabet(), want.labels)
    ctx.check(got.init[got.labels.index("init")] == 1.0, "initial state", got.init)
    if len(set(want.labels)) == want.n:
        pos = {l: i for i, l in enumerate(got.labels)}
        for s in range(want.n):
            row = {want.labels[t]: x for t, x in want.P[s].items()}
            grow = {got.labels[t]: x for t, x in got.P[pos[want.labels[s]]].items()}
            ctx.check(set(row) == set(grow), "transitions of %s" % want.labels[s], grow, row)
            for t in row:
                ctx.close(grow[t], row[t], "rate %s -> %s" % (want.labels[s], t), rel=1e-9)
    a, b = sorted(got.exit(s) for s in range(got.n)), sorted(want.exit(s) for s in range(want.n))
    for x, y in zip(a, b):
        ctx.close(x, y, "exit rates", rel=1e-9)
    for t in walks(got, seed, True, 12) + walks(want, seed, True, 12):
        ctx.close(got.density(t), want.density(t), "density of %r" % (t,), rel=1e-7, abs_=1e-250)
    return want


def consistent(ctx, h):
    """parameterIndexes and involvedParameters agree with the expressions"""
    n = h.nb_states
    where = {p: set() for p in h.parameter_str}
    for s in range(n):
        for t in range(n):
            e = h.transitionExpression(s, t)
            sy = {x.name for x in e.free_symbols}
            ctx.check(set(h.involvedParameters(s, t)) == sy, "involvedParameters(%d,%d)" % (s, t), h.involvedParameters(s, t), str(e))
            for p in sy:
                where[p].add((s, t))
    ctx.check(len(set(h.parameter_str)) == len(h.parameter_str), "parameters listed twice", h.parameter_str)
    for p in h.parameter_str:
        idx = [tuple(int(x) for x in y) for y in h.parameterIndexes(p)]
        ctx.check(len(idx) == len(set(idx)) and set(idx) == where[p], "parameterIndexes(%s)" % p, idx, where[p])


def run_ctmcs(case, ctx):
    specs = case["models"]
    ms = [module(m) for m in specs]
    before = [(snapshot(m), [tuple(x) for x in m.synchronous_transitions]) for m in ms]
    h = ja.synchronousCompositionCTMCs(ms[0], ms[1], "composed")
    ctx.check([(snapshot(m), [tuple(x) for x in m.synchronous_transitions]) for m in ms] == before, "the composition changed a module")
    ctx.check(type(h).__name__ == "PCTMC" and h.name == "composed", "type or name of the composition", h.name)
    ctx.check(h.isInstantiated(), "the composition is not instantiated")
    seed = zlib.crc32(repr(case).encode())
    vals = {p: float(h.parameterValue(p)) for p in h.parameter_str}
    want = compare(ctx, h, vals, specs, seed)
    consistent(ctx, h)
    ctx.nontrivial(want.n > 3)
    ctx.tag("%d synchronous actions" % len({x[1] for x in specs[0]["sync"]}))
    if want.n - 1 < specs[0]["n"] * specs[1]["n"]:
        ctx.tag("states removed")
    # the rates of a module are parameters: changing one is composing the changed module
    cand = [(k, s, t) for k in (0, 1) for s in range(specs[k]["n"]) for t in range(specs[k]["n"]) if specs[k]["R"][s][t] > 0]
    if case["change"] is None:
        return
    k, s, t = cand[case["change"] % len(cand)]
    order = specs[k].get("order") or list(range(specs[k]["n"] + 1))
    p = "%s_%d_%d" % ("pq"[k], order.index(s), order.index(t))
    if p in vals:
        new = specs[k]["R"][s][t] * 2 + 1
        ctx.check(h.instantiate([p], [new]), "instantiate refuses %s=%r" % (p, new))
        specs[k]["R"][s][t] = new
        vals = {q: float(h.parameterValue(q)) for q in h.parameter_str}
        ctx.tag("rate changed")
        compare(ctx, h, vals, specs, seed + 1)


def run_pctmcs(case, ctx):
    specs = case["models"]
    ms = [module(m) for m in specs]
    before = [(snapshot2(m), [tuple(map(str, x)) for x in m.synchronous_transitions]) for m in ms]
    h = ja.synchronousCompositionPCTMCs(ms, "composed")
    ctx.check([(snapshot2(m), [tuple(map(str, x)) for x in m.synchronous_transitions]) for m in ms] == before, "the composition changed a module")
    ctx.check(type(h).__name__ == "PCTMC" and h.name == "composed", "type or name of the composition", h.name)
    seed = zlib.crc32(repr(case).encode())
    values = {}
    for m in specs:
        values.update(m["values"])
    allp = sorted({p for m in specs for p in m["params"]})
    ctx.check(sorted(h.parameter_str) == allp, "parameters of the composition", h.parameter_str, allp)
    for p in allp:
        ctx.check(h.isInstantiated(param=p) == (p in values), "%s instantiated" % p)
        if p in values:
            ctx.check(float(h.parameterValue(p)) == values[p], "value of %s" % p, h.parameterValue(p))
    consistent(ctx, h)
    for i, v in enumerate([dict(case["tries"][0], **values)] + case["tries"][:case.get("more", 2)]):
        vals = {p: v[p] for p in allp}
        want = compare(ctx, h, vals, specs, seed + i)
        ctx.check(h.instantiate(allp, [vals[p] for p in allp]), "instantiate refuses", vals)
        got = pref(h, vals)
        for s in range(h.nb_states):
            for t in range(h.nb_states):
                ctx.close(float(h.transitionValue(s, t)), got.P[s].get(t, 0.0), "transitionValue(%d,%d)" % (s, t))
    ctx.nontrivial(want.n > 3)
    ctx.tag("%d modules, %d synchronous actions" % (len(ms), len({x[1] for x in specs[0]["sync"]})))


def snapshot2(m):
    s = dict(X=[[text(m.transitionExpression(i, j)) for j in range(m.nb_states)] for i in range(m.nb_states)],
             params=list(m.parameter_str), labels=[m.getLabel(i) for i in range(m.nb_states)], name=m.name,
             values={p: float(m.parameterValue(p)) if m.isInstantiated(param=p) else None for p in m.parameter_str})
    s["all"] = sorted((p, repr(float(v))) for p, v in m.parameter_values.items())
    s["idx"] = {p: sorted(map(list, m.parameterIndexes(p))) for p in m.parameter_str}
    return s


SUBS = [
    Sub("ctmcs", gen_ctmcs, run_ctmcs, 900, 14000,
        "two random CTMCs (self-loops, up to 3 synchronising actions with several transitions each, any position of the "
        "initial state) against the product chain; a changed rate; non-trivial: more than 2 states"),
    Sub("large", gen_big, run_ctmcs, 24, 240, "two CTMCs of 11 to 13 states: more than 255 different rates"),
    Sub("large_pctmcs", gen_big_pctmcs, run_pctmcs, 16, 80, "two PCTMCs of 12 or 13 states: more than 255 expressions"),
    Sub("pctmcs", gen_pctmcs, run_pctmcs, 500, 8000,
        "2 to 4 random PCTMCs with own and shared parameters, with or without values, under three valuations"),
]
