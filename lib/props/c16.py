"""C16: learning without an initial model yields a valid model of the requested size."""
import math
import zlib
import json
import numpy as np
import gen
import em
import env
from build import Sub, mkset, copies, is_prob_row
from ref import Ref, underflow
import jajapy as ja

KINDS = ["MC", "MC", "MDP", "CTMC", "CTMC", "GOHMM"]
NAME = dict(MC="MC", MDP="MDP", CTMC="CTMC", GOHMM="GoHMM")


def gen_case(r):
    k = r.pick(KINDS)
    m = gen.ANY[k](r, lo=1, hi=4, big=5)
    timed = k == "CTMC"
    t = gen.traces(r, m, timed=timed, nmax=4, lmax=6, minlen=2 if k != "GOHMM" else 1, impossible=False)
    c = dict(kind=k, timed=timed, traces=t, strip=k == "MC" and r.chance(1, 3), how=r.pick(["set", "set", "list", "array"]),
             it=r.pick([1, 1, 2, 4]), random_init=r.chance(1, 2))
    if c["strip"]:
        c["traces"] = []
        for tr, x in t:
            if all(tr[1:] != y for y, _ in c["traces"]):
                c["traces"].append([tr[1:], x])
    nl = len(labels(c))
    c["n"] = r.int(max(nl, 1), max(nl, 1) + 2)
    if timed:
        c["min"] = r.int(1, 5)
        c["max"] = c["min"] + r.int(0, 5)
        c["loop"] = r.pick([None, False, True])
        c["n"] = max(2, c["n"])
    if k == "GOHMM":
        c["n"] = r.int(1, 3)
        c["give_d"] = r.chance(1, 2)
    return c


def labels(c):
    step = 2 if c["timed"] or c["kind"] == "MDP" else 1
    if c["kind"] == "GOHMM":
        return []
    return sorted({x for tr, _ in c["traces"] for x in tr[::step]} - {"init"})


def training(c):
    tr = c["traces"]
    t = dict(MC=0, MDP=1, CTMC=4, GOHMM=3)[c["kind"]]
    if c["how"] == "set" or c["kind"] == "MDP":
        return mkset(tr, t)
    if c["how"] == "array" and c["kind"] in ("MC", "GOHMM") and len({len(x) for x, _ in tr}) == 1:
        return np.array(copies(tr))
    return copies(tr)


def fit(c, it, salt=0, **kw):
    env.reseed(zlib.crc32(json.dumps(c, sort_keys=True).encode()) + salt)     # the same initial model
    if c["timed"]:
        kw.update(min_exit_rate_time=c["min"], max_exit_rate_time=c["max"])
        if c["loop"] is not None:
            kw["self_loop"] = c["loop"]
    if c["kind"] == "GOHMM" and c["give_d"]:
        kw["nb_distributions"] = len(c["traces"][0][0][0])
    return ja.BW().fit(training(c), nb_states=c["n"], random_initial_state=c["random_init"], max_it=it, epsilon=-1e9,
                       stormpy_output=False, verbose=0, **kw)


def ref_of(h):
    """a Ref with the numbers of h"""
    ref = Ref.__new__(Ref)
    ref.kind = type(h).__name__.upper()
    ref.n = n = h.nb_states
    ref.init = [float(h.pi(s)) for s in range(n)]
    if ref.kind == "MDP":
        ref.labels = [h.getLabel(s) for s in range(n)]
        ref.actions = list(h.getActions())
        ref.P = [{a: {t: float(h.a(s, t, a)) for t in range(n) if h.a(s, t, a) != 0} for a in h.getActions()} for s in range(n)]
        return ref
    if ref.kind != "GOHMM":
        ref.labels = [h.getLabel(s) for s in range(n)]
    f = (lambda s, t: h.l(s, t, ref.labels[s])) if ref.kind == "CTMC" else h.a
    ref.P = [{t: float(f(s, t)) for t in range(n) if f(s, t) != 0} for s in range(n)]
    if ref.kind == "GOHMM":
        ref.out = [[[float(x) for x in y] for y in z] for z in h.output]
    return ref


def valid(ctx, c, h, ref):
    k, n = c["kind"], c["n"]
    ctx.check(type(h).__name__ == NAME[k], "kind of model: %s" % type(h).__name__)
    if k == "GOHMM":
        ctx.check(h.nb_states == n, "%d states instead of %d" % (h.nb_states, n))
        ctx.check(all(len(x) == len(c["traces"][0][0][0]) for x in ref.out), "number of distributions", ref.out)
        ctx.check(all(x[1] >= 0 for z in ref.out for x in z), "negative deviation", ref.out)
        is_prob_row(ctx, ref.init, "initial distribution")
        if not c["random_init"]:
            ctx.check(ref.init[0] == 1.0, "random_initial_state=False: initial distribution", ref.init)
    else:
        ctx.check(h.nb_states == n + 1, "%d states instead of %d" % (h.nb_states, n + 1))
        ctx.check(ref.labels.count("init") == 1, "labels", ref.labels)
        i = ref.labels.index("init")
        ctx.check(ref.init[i] == 1.0, "initial state", ref.init)
        ctx.check(set(ref.labels) - {"init"} == set(labels(c)), "labels of the model", ref.labels, labels(c))
        row = ref.P[i]
        if k == "MDP":
            acts = sorted({a for tr, _ in c["traces"] for a in tr[1::2]})
            ctx.check(sorted(h.getActions()) == acts, "actions of the model", h.getActions(), acts)
            row = {s: 1 for a in acts for s in row.get(a, {})}
        if not c["random_init"]:
            ctx.check(list(row) == [0], "random_initial_state=False: transitions of the initial state", row)
        ctx.check(all(i not in (x if k != "MDP" else {t for y in x.values() for t in y}) for x in ref.P),
                  "a transition leads to the initial state")
    for s in range(ref.n):
        if k == "MDP":
            for a in ref.actions:
                is_prob_row(ctx, list(ref.P[s][a].values()), "row of %d, %s" % (s, a))
        elif k == "CTMC":
            ctx.check(all(x >= 0 and math.isfinite(x) for x in ref.P[s].values()), "rates of %d" % s, ref.P[s])
            ctx.check(c["loop"] or s not in ref.P[s], "a self loop", s, ref.P[s])
        else:
            is_prob_row(ctx, list(ref.P[s].values()), "row of %d" % s)


def run(c, ctx):
    timed = c["timed"]
    ctx.tag(c["kind"] + (" without init" if c["strip"] else ""))
    h0 = fit(c, 0)
    ref = ref_of(h0)
    valid(ctx, c, h0, ref)
    if timed:
        for s in range(c["n"]):
            m = float(h0.expected_time(s))
            ctx.check(c["min"] - 1e-9 <= m <= c["max"] + 1e-9, "mean time %r outside [%r,%r]" % (m, c["min"], c["max"]))
    traces = [[["init"] + tr, x] for tr, x in c["traces"]] if c["strip"] else c["traces"]
    p = [(ref.density(t) if timed else ref.prob(t)) for t, _ in traces]
    if all(x == 0.0 for x in p) and c["kind"] != "GOHMM" and not (timed and any(ref.timed_support(t) for t, _ in traces)):
        ctx.tag("all impossible")
        ctx.raises(ValueError, lambda: fit(c, 1), "learning from impossible traces")
        return
    if underflow(ref, traces, timed):
        ctx.tag("underflow")
        return
    prev = em.loglik(ref, traces, timed)
    first = prev
    was = sum(1 for x in p if x > 0)
    for it in sorted({1, c["it"]}):
        try:
            h, info = fit(c, it, return_data=True)
        except ValueError:
            ctx.check(c["kind"] == "GOHMM", "the learning failed")
            ctx.tag("vanishing deviation")
            return
        if it == 1:
            ctx.close(float(info["training_set_loglikelihood"]), prev, "likelihood of the initial model", rel=1e-7, abs_=1e-8)
        ctx.check(info["learning_rounds"] == it, "learning_rounds", info)
        ref = ref_of(h)
        if c["kind"] == "GOHMM" and min(x[1] for z in ref.out for x in z) < 1e-3:
            ctx.tag("vanishing deviation")
            return
        valid(ctx, c, h, ref)
        if underflow(ref, traces, timed):
            return
        now = sum(1 for t, _ in traces if (ref.density(t) if timed else ref.prob(t)) > 0)
        ctx.check(now >= was, "a possible trace became impossible")
        ll = em.loglik(ref, traces, timed)
        ctx.check(ll >= prev - 1e-7 * (1 + abs(prev)), "the loglikelihood decreased from %r to %r after %d iterations" % (prev, ll, it))
        prev = ll
    ctx.nontrivial(prev > first + 1e-6)
    # default stopping rule
    h = fit(c, 30) if c["kind"] != "GOHMM" else h
    ctx.check(h.nb_states == len(ref.init), "size after 30 iterations")


def gen_refuse(r):
    c = gen_case(r)
    c["without"] = r.pick(["nb_states", "min", "max"]) if c["timed"] else "nb_states"
    return c


def run_refuse(c, ctx):
    """a size (or the bounds of the exit times) is needed"""
    ctx.nontrivial()
    kw = dict(nb_states=c["n"], min_exit_rate_time=c.get("min"), max_exit_rate_time=c.get("max"))
    kw[dict(min="min_exit_rate_time", max="max_exit_rate_time").get(c["without"], c["without"])] = None
    ctx.raises(Exception, lambda: ja.BW().fit(training(c), max_it=1, verbose=0, stormpy_output=False, **kw),
               "without %s" % c["without"])


def gen_random(r):
    c = gen_case(r)
    c["random_init"] = True
    c["n"] = max(2, c["n"])
    return c


def run_random(c, ctx):
    """random_initial_state: several states are possible initially (8 trials, each failing with probability < 0.01)"""
    ctx.tag(c["kind"])
    ctx.nontrivial()
    sizes, models = [], set()
    for salt in range(1, 9):
        ref = ref_of(fit(c, 0, salt))
        if c["kind"] == "GOHMM":
            row = [x for x in ref.init if x > 0]
        else:
            row = ref.P[ref.labels.index("init")]
            if c["kind"] == "MDP":
                row = {s for x in row.values() for s in x}
        sizes.append(len(row))
        models.add(repr(ref.P))
    ctx.check(max(sizes) > 1, "random_initial_state=True: one initial state", sizes)
    ctx.check(len(models) > 1, "the initial models are not random")


SUBS = [
    Sub("random", gen_random, run_random, 160, 2000,
        "8 initial models with random_initial_state=True: not always one initial state, not always the same model"),
    Sub("fit", gen_case, run, 2400, 30000,
        "random training sets (Set, list, array) of label sequences, action-label sequences, timed sequences, vectors; "
        "validity, size, alphabet, options, monotone likelihood; non-trivial: the likelihood increased"),
    Sub("refuse", gen_refuse, run_refuse, 200, 1000, "nb_states or the bounds of the exit times missing: refused"),
]
