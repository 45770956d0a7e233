"""C25: active learning keeps a valid hypothesis fitted on all the traces it requested."""
import copy
import json
import math
import os
import time
import random
import zlib
from collections import Counter
from scipy.stats import binom
import gen
import em
import env
from build import Sub, build_any, mkset, is_prob_row
from ref import Ref, underflow
from props.c16 import ref_of
import jajapy as ja

THRESHOLD = 1e-12


class Sul:
    """the system under learning: an MDP which records what it is asked; refuses unavailable actions"""

    def __init__(self, model):
        self.model, self.asked, self.traces, self.choices = model, [], [], []

    def run(self, length, scheduler):
        rec = Recorder(scheduler)
        self.asked.append([length, isinstance(scheduler, ja.UniformScheduler)])
        t = self.model.run(length, rec)
        self.traces.append(t)
        self.choices.append(rec.first)
        return list(t)


class Recorder:
    """passes everything to the scheduler, remembers its first choice of every step"""

    def __init__(self, s):
        self.s, self.first, self.new = s, [], True

    def reset(self):
        self.s.reset()

    def getAction(self):
        a = self.s.getAction()
        if self.new:
            self.first.append(a)
            self.new = False
        return a

    def addObservation(self, o):
        self.new = True
        self.s.addObservation(o)


def gen_case(r, again=True):
    m = gen.mdp(r, lo=1, hi=4, big=5, tiny=False)
    c = dict(model=m, seed=r.int(0, 10 ** 6), lr=r.pick([0, 0, 0.5, 0.1, 1, "dynamic", "dynamic"]), its=r.int(1, 3), n=r.int(1, 8),
             length=r.pick([None, 1, 2, 3, 6]), greedy=r.pick([0, 1, 0.5, 0.9]), eps=r.pick([0.01, 1.0, 1e-3]),
             init=r.pick(["full", "full", "self", "random"]), storm=r.chance(1, 10), data=r.chance(3, 4))
    tr = []
    for x, k in gen.traces(r, m, nmax=5, lmax=5, minlen=2, impossible=False):
        tr.append([x, k])
    c["traces"] = tr
    if c["init"] == "full":
        # all the transitions, so that the hypothesis can explain everything
        h = copy.deepcopy(m)
        h["P"] = [[[w / 1.0 for w in gen.row(r, m["n"], density=3)] for _ in m["actions"]] for _ in range(m["n"])]
        h["init"] = gen.row(r, m["n"], density=3)
        if not r.chance(1, 3):
            h["n"] = m["n"]
        c["hyp"] = h
    elif c["init"] == "self":
        c["hyp"] = m
    else:
        c["nb"] = len({o for t, _ in tr for o in t[::2]} | set(m["labels"])) + r.int(0, 2)
        if {o for t, _ in tr for o in t[::2]} != set(m["labels"]) | {"init"}:
            c["init"], c["hyp"] = "self", m
        elif {a for t, _ in tr for a in t[1::2]} != set(m["actions"]):
            c["init"], c["hyp"] = "self", m
    if again and r.chance(1, 8):
        c["before"] = gen_case(r, False)
    return c


def start(c, cls, traces, **kw):
    """the options of the initial fit"""
    env.reseed(c["seed"])
    if c["init"] == "random":
        return dict(nb_states=c["nb"], **kw)
    return dict(initial_model=build_any(dict(model=c["hyp"])), **kw)


def counted(traces):
    """[[trace, multiplicity]] of a list"""
    res = []
    for t in traces:
        for x in res:
            if x[0] == t:
                x[1] += 1
                break
        else:
            res.append([list(t), 1])
    return res


def plus(a, b):
    res = [[list(t), m] for t, m in a]
    for t, m in b:
        for x in res:
            if x[0] == t:
                x[1] += m
                break
        else:
            res.append([list(t), m])
    return res


def numbers(h):
    return [[[float(h.a(s, t, a)) for t in range(h.nb_states)] for a in h.getActions()] for s in range(h.nb_states)]


def bw(traces, h, c, **kw):
    return ja.BW().fit(mkset(traces, 1), initial_model=h, epsilon=c["eps"], stormpy_output=False, verbose=0, return_data=True, **kw)


def active(c, sul, **kw):
    o = start(c, ja.Active_BW_MDP, c["traces"])
    a = ja.Active_BW_MDP()
    if c.get("before"):      # what the object learned before
        b = c["before"]
        try:
            a.fit(mkset(b["traces"], 1), Sul(build_any(b)), b["lr"], b["its"], b["n"], epsilon_greedy=b["greedy"], verbose=0,
                  epsilon=b["eps"], sequence_length=b["length"], stormpy_output=False, **start(b, None, None))
        except ValueError:
            pass
        o = start(c, ja.Active_BW_MDP, c["traces"])
    return a.fit(mkset(c["traces"], 1), sul, c["lr"], c["its"], c["n"], epsilon_greedy=c["greedy"],
                                  epsilon=c["eps"], verbose=0, return_data=True, sequence_length=c["length"], **dict(o, **kw))


def run(c, ctx):
    sul = Sul(build_any(c))
    f = ctx.path("out.txt")
    if os.path.exists(f):
        os.unlink(f)
    begin = time.perf_counter()
    try:
        h, info = active(c, sul, stormpy_output=False, output_file=f)
        ctx.check(0 <= info["learning_time"] <= time.perf_counter() - begin, "learning_time", info["learning_time"])
    except ValueError as e:
        # only if a whole sample is impossible for the hypothesis
        ctx.check(impossible(c, sul), "the learning failed", e)
        ctx.tag("impossible sample")
        return
    want_len = c["length"] if c["length"] is not None else (len(c["traces"][0][0])) // 2
    ctx.check(len(sul.asked) == c["its"] * c["n"], "%d sequences requested" % len(sul.asked))
    ctx.check(all(x == want_len for x, _ in sul.asked), "length of the sequences", sul.asked, want_len)
    if c["greedy"] == 0:
        ctx.check(all(u for _, u in sul.asked), "epsilon_greedy=0: active scheduler used", sul.asked)
    if c["greedy"] == 1:
        ctx.check(not any(u for _, u in sul.asked), "epsilon_greedy=1: uniform scheduler used", sul.asked)
    ctx.tag("lr=%s" % c["lr"])
    ctx.tag("init " + c["init"])
    # what the learning should have done with these samples
    env.reseed(c["seed"])
    o = start(c, None, None)
    ref_h, i0 = ja.BW().fit(mkset(c["traces"], 1), epsilon=c["eps"], stormpy_output=False, verbose=0, return_data=True, **o)
    rounds = i0["learning_rounds"]
    states = ref_h.nb_states
    total = c["traces"]
    for k in range(c["its"]):
        new = counted(sul.traces[k * c["n"]:(k + 1) * c["n"]])
        before = sum(m for _, m in total)
        total = plus(total, new)
        if c["lr"] == 0:
            ref_h, i = bw(total, ref_h, c)
        else:
            lr = c["lr"] if c["lr"] != "dynamic" else c["n"] / (before + c["n"])
            old = copy.deepcopy(ref_h)
            ref_h, i = bw(new, ref_h, c)
            ref_h.matrix = lr * ref_h.matrix + (1 - lr) * old.matrix
        rounds += i["learning_rounds"]
    ref = ref_of(h)
    ctx.check(type(h).__name__ == "MDP" and h.nb_states == states, "kind or size of the model")
    ctx.check(ref.labels == [ref_h.getLabel(s) for s in range(states)], "labels of the model")
    ctx.check(list(h.getActions()) == list(ref_h.getActions()), "actions of the model")
    ctx.check(ref.init == [float(ref_h.pi(s)) for s in range(states)], "initial state")
    for s in range(states):
        for a, row in ref.P[s].items():
            is_prob_row(ctx, list(row.values()), "row of %d, %s" % (s, a)) if row else None
            ctx.check(all(0 <= x <= 1 + 1e-9 for x in row.values()), "negative probability in state %d, %s" % (s, a), row)
    A, B = numbers(h), numbers(ref_h)
    worst = max(abs(x - y) for p, q in zip(A, B) for u, v in zip(p, q) for x, y in zip(u, v))
    if worst > 1e-6 and close_call(c, sul):
        ctx.tag("stopping rule too close")
        return
    ctx.check(worst <= 1e-6, "the model is not the one fitted on the requested traces (difference %r)" % worst, A, B)
    if worst < 1e-9:
        ctx.check(info["learning_rounds"] == rounds, "learning_rounds", info, rounds)
    if not underflow(ref, total):
        ctx.close(float(info["training_set_loglikelihood"]), ref.loglik(total)[0], "training_set_loglikelihood", rel=1e-6, abs_=1e-8)
    g = ja.loadMDP(f)
    ctx.check(numbers(g) == A, "the saved model is not the returned one", numbers(g), A)
    ctx.nontrivial(len(counted(sul.traces)) > 1 and any(x > 1e-6 for p, q in zip(A, numbers_of(c)) for u, v in zip(p, q)
                                                        for x in (abs(y - z) for y, z in zip(u, v))))
    if c["storm"]:
        x = active(c, Sul(build_any(c)), stormpy_output=True)
        ctx.check(len(x) == 2 and "Mdp" in type(x[0]).__name__, "stormpy_output with return_data", type(x[0]))
        ctx.tag("storm")


def impossible(c, sul):
    """is one of the sets to fit impossible for its hypothesis?"""
    env.reseed(c["seed"])
    o = start(c, None, None)
    h = ja.BW().fit(mkset(c["traces"], 1), epsilon=c["eps"], stormpy_output=False, verbose=0, **o)
    total = c["traces"]
    for k in range(len(sul.traces) // c["n"]):
        new = counted(sul.traces[k * c["n"]:(k + 1) * c["n"]])
        before = sum(m for _, m in total)
        total = plus(total, new)
        used = total if c["lr"] == 0 else new
        ref = ref_of(h)
        if all(ref.prob(t) < 1e-250 for t, _ in used):
            return True
        old = copy.deepcopy(h)
        h, _ = bw(used, h, c)
        if c["lr"] != 0:
            lr = c["lr"] if c["lr"] != "dynamic" else c["n"] / (before + c["n"])
            h.matrix = lr * h.matrix + (1 - lr) * old.matrix
    return False


def numbers_of(c):
    o = start(c, None, None)
    if "initial_model" in o:
        return numbers(o["initial_model"])
    return []


def close_call(c, sul):
    """does the result of the learning depend on the rounding (the improvement is very close to epsilon)?"""
    res = []
    for e in (c["eps"] * (1 - 1e-6), c["eps"] * (1 + 1e-6)):
        o = start(c, None, None)
        c2 = dict(c, eps=e)
        h, i = ja.BW().fit(mkset(c["traces"], 1), epsilon=e, stormpy_output=False, verbose=0, return_data=True, **o)
        r = [i["learning_rounds"]]
        total = c["traces"]
        for k in range(c["its"]):
            new = counted(sul.traces[k * c["n"]:(k + 1) * c["n"]])
            before = sum(m for _, m in total)
            total = plus(total, new)
            old = copy.deepcopy(h)
            h, i = bw(total if c["lr"] == 0 else new, h, c2)
            if c["lr"] != 0:
                lr = c["lr"] if c["lr"] != "dynamic" else c["n"] / (before + c["n"])
                h.matrix = lr * h.matrix + (1 - lr) * old.matrix
            r.append(i["learning_rounds"])
        res.append(r)
    return res[0] != res[1]


# ------------------------------------------------------------------ which scheduler, which actions
def gen_choice(r):
    m = gen.mdp(r, lo=1, hi=4, big=4, tiny=False, missing=r.chance(1, 4))
    h = copy.deepcopy(m)
    h["P"] = [[gen.row(r, m["n"], density=3, tiny=False) for _ in m["actions"]] for _ in range(m["n"])]
    h["init"] = gen.row(r, m["n"], density=3, tiny=False)
    return dict(model=m, hyp=h, init="full", seed=r.int(0, 10 ** 6), lr=0.5, its=1, n=400, length=r.pick([1, 2, 3]),
                greedy=r.pick([1, 1, 0.9, 0.5, 0.2]), eps=1e9, traces=gen.traces(r, m, nmax=5, lmax=5, minlen=2, impossible=False))


def freedman(dev, var):
    """bound on the probability that a martingale with steps in [-1,1] and quadratic variation var deviates by dev"""
    return 2 * math.exp(-dev * dev / 2 / (var + dev / 3)) if dev > 0 else 1.0


def run_choice(c, ctx):
    sul = Sul(build_any(c))
    active(c, sul, stormpy_output=False)
    n, g = c["n"], c["greedy"]
    u = sum(x for _, x in sul.asked)
    p = freedman(abs(u - n * (1 - g)), n * g * (1 - g)) if 0 < g < 1 else (1.0 if u == n * (1 - g) else 0.0)
    ctx.check(p > THRESHOLD, "uniform scheduler used %d times of %d, epsilon_greedy=%r" % (u, n, g))
    # the hypothesis used for the only sample
    o = start(c, None, None)
    h = ja.BW().fit(mkset(c["traces"], 1), epsilon=c["eps"], stormpy_output=False, verbose=0, **o)
    ref = ref_of(h)
    acts = list(h.getActions())
    ctx.tag("%d actions" % len(acts))
    if len(acts) < 2:
        return
    count = [{a: 0.0 for a in acts} for _ in range(ref.n)]
    for t, m in c["traces"]:
        q, gamma, _ = em.posterior(ref, t, False)
        if q > 0:
            for i in range(len(gamma) - 1):
                for s, x in gamma[i].items():
                    count[s][t[2 * i + 1]] += m * x
    dev = {a: 0.0 for a in acts}
    var = {a: 0.0 for a in acts}
    udev = {a: 0.0 for a in acts}
    uvar = 0.0
    for (_, uni), tr, first in zip(sul.asked, sul.traces, sul.choices):
        belief = dict(enumerate(ref.init))
        for k, a0 in enumerate(first):
            if uni:
                for a in acts:
                    udev[a] += (a == a0) - 1 / len(acts)
                uvar += 1 / len(acts) * (1 - 1 / len(acts))
                continue
            tot = sum(belief.values())
            if tot <= 0:
                break
            for a in acts:
                p = 0.0
                for s, b in belief.items():
                    v = sum(count[s].values())
                    p += b / tot * (1 / len(acts) if v <= 0 else (v - count[s][a]) / v / (len(acts) - 1))
                dev[a] += (a == a0) - p
                var[a] += p * (1 - p)
            a, o = tr[2 * k + 1], tr[2 * k]
            for s, b in belief.items():
                count[s][a] += b / tot
            nxt = {}
            for s, b in belief.items():
                if ref.labels[s] == o:
                    for t, q in ref.P[s].get(a, {}).items():
                        nxt[t] = nxt.get(t, 0.0) + b * q
            belief = nxt
    for a in acts:
        ctx.check(freedman(abs(dev[a]), var[a]) > THRESHOLD,
                  "the active scheduler chose %s %+.1f times too often" % (a, dev[a]), var[a])
        ctx.check(freedman(abs(udev[a]), uvar) > THRESHOLD,
                  "the uniform scheduler chose %s %+.1f times too often" % (a, udev[a]), uvar)
    ctx.nontrivial(max(var.values()) > 20)


# ------------------------------------------------------------------ the choice of the active scheduler at every step
DRAWS = 500


class Probe(Recorder):
    """at every step, the distribution of the choice of the scheduler (by that of copies of it)"""

    def __init__(self, s):
        super().__init__(s)
        self.counts = []

    def getAction(self):
        if self.new:
            self.counts.append(Counter(copy.deepcopy(self.s).getAction() for _ in range(DRAWS)))
        return super().getAction()


class ProbeSul(Sul):
    def run(self, length, scheduler):
        rec = Probe(scheduler)
        t = self.model.run(length, rec)
        self.traces.append(t)
        self.choices.append(rec.counts)
        return list(t)


def gen_steps(r):
    c = gen_choice(r)
    c["traces"] = [[t, 1] for t, _ in c["traces"][:r.int(1, 3)]]
    return dict(c, n=r.int(1, 3), length=r.int(1, 3), greedy=1)


def run_steps(c, ctx):
    sul = ProbeSul(build_any(c))
    try:
        active(c, sul, stormpy_output=False)
    except ValueError:      # none of the new traces is possible for the hypothesis
        ctx.tag("impossible traces")
    o = start(c, None, None)
    h = ja.BW().fit(mkset(c["traces"], 1), epsilon=c["eps"], stormpy_output=False, verbose=0, **o)
    ref = ref_of(h)
    acts = list(h.getActions())
    if len(acts) < 2:
        return
    count = [{a: 0.0 for a in acts} for _ in range(ref.n)]
    for t, m in c["traces"]:
        q, gamma, _ = em.posterior(ref, t, False)
        if q > 0:
            for i in range(len(gamma) - 1):
                for s, x in gamma[i].items():
                    count[s][t[2 * i + 1]] += m * x
    for tr, counts in zip(sul.traces, sul.choices):
        belief = dict(enumerate(ref.init))
        for k, got in enumerate(counts):
            tot = sum(belief.values())
            if tot <= 0:
                break
            p = {a: 0.0 for a in acts}
            for s, b in belief.items():
                v = sum(count[s].values())
                for a in acts:
                    p[a] += b / tot * (1 / len(acts) if v <= 0 else (v - count[s][a]) / v / (len(acts) - 1))
            ctx.nontrivial(k > 0 and max(p.values()) - min(p.values()) > 0.05)
            ctx.check(set(got) <= set(acts), "the active scheduler chose an unknown action", dict(got))
            for a in acts:
                q = min(max(p[a], 0.0), 1.0)
                if q < 1e-9:
                    ctx.check(got[a] <= 1, "step %d: the active scheduler chose %s %d times of %d, probability %r" %
                              (k, a, got[a], DRAWS, q))
                    continue
                x = 2 * min(binom.cdf(got[a], DRAWS, q), binom.sf(got[a] - 1, DRAWS, q))
                ctx.check(q > 1 - 1e-9 and got[a] >= DRAWS - 1 or x > THRESHOLD,
                          "step %d: the active scheduler chose %s %d times of %d, probability %r" % (k, a, got[a], DRAWS, q))
            a, o = tr[2 * k + 1], tr[2 * k]
            for s, b in belief.items():
                count[s][a] += b / tot
            nxt = {}
            for s, b in belief.items():
                if ref.labels[s] == o:
                    for t, q in ref.P[s].get(a, {}).items():
                        nxt[t] = nxt.get(t, 0.0) + b * q
            belief = nxt


SUBS = [
    Sub("fit", gen_case, run, 700, 12000,
        "random systems (refusing actions), initial hypotheses or sizes, learning rates, exploration rates: requests "
        "recorded by the system, model compared with BW on the recorded traces, saved model, return_data; non-trivial: "
        "several different traces were sampled and the hypothesis changed"),
    Sub("choice", gen_choice, run_choice, 200, 2500,
        "400 sequences in one iteration: share of the uniform scheduler and choices of the active one (martingale "
        "tests, threshold 1e-12); non-trivial: variance above 20"),
    Sub("steps", gen_steps, run_steps, 250, 2500,
        "1 to 3 sequences of 1 to 3 steps: 500 copies of the active scheduler choose at every step (exact binomial tests); "
        "non-trivial: unequal probabilities after the first step"),
]
