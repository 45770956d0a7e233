"""C07: simulation follows the distribution of the model.

Every statistical decision uses an exact tail probability and a threshold of 1e-12 per test (a run performs fewer than
1e6 tests)."""
import math
from collections import Counter
from scipy.stats import binom, gamma, norm, chi2, nbinom
import numpy as np
import gen
from build import Sub, build_any
from ref import Ref
import jajapy as ja

EPS = 1e-12


def tails(lo, hi):
    return 2 * min(lo, hi)


def test_count(ctx, k, n, p, msg):
    if n == 0:
        return
    p = min(max(p, 0.0), 1.0)
    if p == 0.0:
        ctx.check(k == 0, msg + ": impossible event observed", k, n)
        return
    t = tails(binom.cdf(k, n, p), binom.sf(k - 1, n, p))
    ctx.tag("tests")
    ctx.check(t > EPS, "%s: %d times out of %d, probability %r (p-value %.1e)" % (msg, k, n, p, t))


def test_freq(ctx, count, probs, msg):
    """count: Counter of outcomes, probs: dict outcome -> probability"""
    n = sum(count.values())
    for o in count:
        ctx.check(probs.get(o, 0.0) > 0, "%s: impossible outcome %r" % (msg, o), dict(count))
    for o, p in probs.items():
        test_count(ctx, count.get(o, 0), n, p, "%s: outcome %r" % (msg, o))


def test_exp(ctx, xs, rate, msg):
    n = len(xs)
    if n < 5:
        return
    g = gamma(n, scale=1 / rate)
    t = tails(g.cdf(sum(xs)), g.sf(sum(xs)))
    ctx.tag("tests")
    ctx.check(t > EPS, "%s: mean %r of %d values, expected %r (p-value %.1e)" % (msg, sum(xs) / n, n, 1 / rate, t))
    test_count(ctx, sum(x > 1 / rate for x in xs), n, math.exp(-1), msg + ": P(T>1/e)")
    test_count(ctx, sum(x < 0.25 / rate for x in xs), n, 1 - math.exp(-0.25), msg + ": P(T<0.25/e)")


def test_gauss(ctx, xs, mu, sg, msg):
    n = len(xs)
    m = sum(xs) / n
    z = (m - mu) / sg * math.sqrt(n)
    ctx.tag("tests", 2)
    ctx.check(2 * norm.sf(abs(z)) > EPS, "%s: mean %r of %d values, expected %r" % (msg, m, n, mu))
    v = sum((x - mu) ** 2 for x in xs) / sg ** 2
    t = tails(chi2.cdf(v, n), chi2.sf(v, n))
    ctx.check(t > EPS, "%s: deviation %r, expected %r" % (msg, sg * math.sqrt(v / n), sg))
    test_count(ctx, sum(abs(x - mu) < sg / 2 for x in xs), n, norm.cdf(0.5) - norm.cdf(-0.5), msg + ": P(|x-mu|<s/2)")


# ------------------------------------------------------------------ one step
def gen_next(r):
    k = r.pick(["MC", "MDP", "CTMC", "CTMC", "PCTMC", "HMM", "HMM", "GOHMM"])
    m = gen.pctmc(r, hi=3, big=3) if k == "PCTMC" else gen.ANY[k](r, lo=2)
    c = dict(model=m, n=200 if k == "PCTMC" else 2000)
    if k == "CTMC" and r.chance(1, 4):  # slow or fast
        x = r.pick([1e-3, 1e-2, 1e-7, 1e4])
        m["R"] = [[v * x for v in row] for row in m["R"]]
    if k in ("MC", "MDP", "CTMC") and r.chance(1, 3):
        c["order"] = r.shuffle(range(m["n"] + 1))
    c["s"] = r.int(0, m["n"] - (1 if k in ("HMM", "GOHMM") else 0))
    if k == "MDP":
        c["a"] = r.pick([i for i in range(len(m["actions"])) if c["s"] == m["n"] or m["P"][c["s"]][i] is not None])
    return c


def run_next(case, ctx):
    spec, N = case["model"], case["n"]
    k = spec["kind"]
    ref = Ref(spec)
    s = case["s"]
    order = case.get("order") or list(range(ref.n))
    m = build_any(case)
    i = order.index(s)
    ctx.tag(k)
    if k in ("MC", "MDP"):
        act = (spec["actions"][case["a"]],) if k == "MDP" else ()
        res = [m.next(i, *act) for _ in range(N)]
        ctx.check(all(o == ref.labels[s] for _, o in res), "label of the state")
        probs = ref.P[s][act[0]] if act else ref.P[s]
        ctx.nontrivial(len(probs) > 1)
        test_freq(ctx, Counter(order[t] for t, _ in res), probs, "successor of %d" % s)
    elif k in ("CTMC", "PCTMC"):
        res = [m.next(i) for _ in range(N)]
        ctx.check(all(o == ref.labels[s] for o, _, _ in res), "label of the state")
        e = ref.exit(s)
        if e == 0:
            ctx.tag("absorbing")
            ctx.check(all(order[t] == s and d == math.inf for _, t, d in res), "absorbing state")
            return
        probs = ref.jump(s)
        ctx.nontrivial(len(probs) > 1)
        test_freq(ctx, Counter(order[t] for _, t, _ in res), probs, "successor of %d" % s)
        test_exp(ctx, [float(d) for _, _, d in res], e, "dwell time in %d" % s)
        for t in probs:
            test_exp(ctx, [float(d) for _, u, d in res if order[u] == t], e, "dwell time in %d before %d" % (s, t))
    else:
        res = [m.next(i) for _ in range(N)]
        ctx.nontrivial(len(ref.P[s]) > 1)
        test_freq(ctx, Counter(t for t, _ in res), ref.P[s], "successor of %d" % s)
        if k == "HMM":
            test_freq(ctx, Counter(o for _, o in res), ref.E[s], "observation of %d" % s)
            test_freq(ctx, Counter((t, o) for t, o in res),
                      {(t, o): p * q for t, p in ref.P[s].items() for o, q in ref.E[s].items()}, "joint of %d" % s)
        else:
            ctx.check(all(len(o) == spec["d"] for _, o in res), "number of components")
            for d, (mu, sg) in enumerate(spec["out"][s]):
                test_gauss(ctx, [float(o[d]) for _, o in res], mu, sg, "component %d" % d)
                test_freq(ctx, Counter((t, bool(o[d] > mu)) for t, o in res),
                          {(t, b): p / 2 for t, p in ref.P[s].items() for b in (True, False)}, "joint")
                if d:
                    mu0 = spec["out"][s][0][0]
                    test_count(ctx, sum(bool((o[d] > mu) == (o[0] > mu0)) for _, o in res), N, 0.5,
                               "independence of the components")


# ------------------------------------------------------------------ whole runs of models whose states are visible
def gen_runs(r):
    k = r.pick(["MC", "MDP", "CTMC", "PCTMC", "HMM", "GOHMM"])
    n = r.int(2, 5) if k != "PCTMC" else r.int(2, 3)
    if k == "PCTMC":
        m = gen.pctmc(r, n=n)
    elif k == "GOHMM":
        m = gen.gohmm(r, n=n, d=1)
        m["out"] = [[[100.0 * s, 1.0 + s]] for s in range(n)]
    elif k == "HMM":
        m = gen.hmm(r, n=n, k=n)
        p = r.shuffle(range(n))
        m["E"] = [[1.0 if o == p[s] else 0.0 for o in range(n)] for s in range(n)]
    else:
        m = gen.ANY[k](r, n=n)
    if k == "CTMC" and r.chance(1, 4):
        x = r.pick([1e-3, 1e-2, 1e-7, 1e4])
        m["R"] = [[v * x for v in row] for row in m["R"]]
    if k not in ("HMM", "GOHMM"):
        m["labels"] = r.shuffle(gen.LABELS[:n])
    m["init"] = gen.row(r, n, density=r.pick([1, 2, 3]))
    c = dict(model=m, N=60 if k == "PCTMC" else 400, steps=r.int(1, 5), timed=k in ("CTMC", "PCTMC") and r.chance(1, 2),
             how=r.pick(["run", "set"]))
    if k in ("MC", "MDP", "CTMC") and r.chance(1, 3):
        c["order"] = r.shuffle(range(m["n"] + 1))
    return c


def run_runs(case, ctx):
    spec, N, timed = case["model"], case["N"], case["timed"]
    k = spec["kind"]
    ref = Ref(spec)
    m = build_any(case)
    ctx.tag(k)
    steps = case["steps"]
    extra = [ja.UniformScheduler(list(spec["actions"]))] if k == "MDP" else []
    kw = {"timed": True} if timed else {}
    if k in ("HMM", "GOHMM"):
        steps += 1
    if case["how"] == "run":
        trs = [(m.run(steps, *extra, **kw), 1) for _ in range(N)]
    else:
        s = m.generateSet(N, steps, *extra, **kw)
        trs = list(zip(s.sequences, [int(c) for c in s.times]))
    first, jumps, acts, dwell = Counter(), {}, {}, {}
    for tr, c in trs:
        if k == "HMM":
            st = [next(i for i in range(ref.n) if o in ref.E[i]) for o in tr]
        elif k == "GOHMM":
            st = [min(range(ref.n), key=lambda i: abs(o[0] - 100.0 * i)) for o in tr]
        else:
            st = [ref.labels.index(o) for o in (tr[0::2] if k == "MDP" or timed else tr)]
        first[st[0]] += c
        for i in range(len(st) - 1):
            key = st[i]
            if k == "MDP":
                acts.setdefault(key, Counter())[tr[2 * i + 1]] += c
                key = (key, tr[2 * i + 1])
            if timed:
                dwell.setdefault(key, []).extend([float(tr[2 * i + 1])] * c)
            jumps.setdefault(key, Counter())[st[i + 1]] += c
    ctx.nontrivial(sum(len(x) > 1 for x in jumps.values()) > 1)
    test_freq(ctx, first, {i: p for i, p in enumerate(ref.init) if p > 0}, "initial state")
    for key, cnt in jumps.items():
        probs = ref.P[key[0]][key[1]] if k == "MDP" else ref.jump(key)
        test_freq(ctx, cnt, probs, "after %r" % (key,))
    for s_, cnt in acts.items():
        av = sorted(ref.P[s_])
        test_freq(ctx, cnt, {a: 1 / len(av) for a in av}, "actions in %d" % s_)
    for s_, xs in dwell.items():
        if ref.exit(s_) > 0:
            test_exp(ctx, xs, ref.exit(s_), "dwell time in %d" % s_)
        else:
            ctx.check(all(x == math.inf for x in xs), "absorbing state")


# ------------------------------------------------------------------ geometric lengths
def gen_geo(r):
    return dict(kind=r.pick(["MC", "MDP", "CTMC", "HMM", "GOHMM", "PCTMC"]), p=r.pick([0.1, 0.2, 0.25, 0.5, 0.8, 0.95]), min=r.int(0, 12))


def run_geo(case, ctx):
    k, p, mn = case["kind"], case["p"], case["min"]
    ctx.tag(k)
    ctx.nontrivial()
    one = {"MC": dict(kind="MC", n=1, labels=["a"], P=[[1.0]], init=0),
           "MDP": dict(kind="MDP", n=1, labels=["a"], actions=["u"], P=[[[1.0]]], init=0),
           "CTMC": dict(kind="CTMC", n=1, labels=["a"], R=[[2.0]], init=0),
           "HMM": dict(kind="HMM", n=1, alphabet=["a"], P=[[1.0]], E=[[1.0]], init=0),
           "GOHMM": dict(kind="GOHMM", n=1, d=1, P=[[1.0]], out=[[[0.0, 1.0]]], init=0),
           "PCTMC": dict(kind="PCTMC", n=1, labels=["a"], T=[["p"]], params=["p"], values={"p": 2.0}, init=0)}[k]
    m = build_any(dict(model=one))
    N = 100 if k == "PCTMC" else 500
    extra = [ja.UniformScheduler(["u"])] if k == "MDP" else []
    s = m.generateSet(N, p, *extra, distribution="geo", min_size=mn)
    lens = Counter()
    for tr, c in zip(s.sequences, s.times):
        n = len(tr) if k in ("HMM", "GOHMM") else (len(tr) - 1) // 2 if k == "MDP" else len(tr) - 1
        lens[n - mn] += int(c)
    ctx.check(sum(lens.values()) == N and min(lens) >= 1, "lengths", dict(lens))
    fails = sum((n - 1) * c for n, c in lens.items())
    t = tails(nbinom.cdf(fails, N, p), nbinom.sf(fails - 1, N, p))
    ctx.tag("tests")
    ctx.check(t > EPS, "mean length %r, expected %r" % (fails / N + 1 + mn, mn + 1 / p), dict(lens))
    for j in (1, 2, 3):
        test_count(ctx, lens.get(j, 0), N, p * (1 - p) ** (j - 1), "length min_size+%d" % j)


# ------------------------------------------------------------------ resolveRandom
def gen_resolve(r):
    n = r.int(1, 8)
    w = [0 if r.chance(1, 3) else r.pick([r.int(1, 9), r.int(1, 1000), 1e-3, 0.25]) for _ in range(n)]
    if not any(w):
        w[r.int(0, n - 1)] = 1
    return dict(w=w, how=r.pick(["raw", "norm", "array", "round"]), n=2000)


def run_resolve(case, ctx):
    from jajapy.base.tools import resolveRandom
    w = [float(x) for x in case["w"]]
    tot = sum(w)
    ctx.nontrivial(sum(x > 0 for x in w) > 1)
    ctx.tag(case["how"])
    arg = w
    if case["how"] == "norm":
        arg = [x / tot for x in w]
    elif case["how"] == "array":
        arg = np.array([x / tot for x in w])
    elif case["how"] == "round":
        arg = [round(x / tot, 3) for x in w]
        w, tot = arg, sum(arg)
    cnt = Counter(int(resolveRandom(arg)) for _ in range(case["n"]))
    test_freq(ctx, cnt, {i: x / tot for i, x in enumerate(w) if x > 0}, "resolveRandom")


def gen_small(r):
    n = r.int(2, 6)
    w = [r.int(3, 20) * 1e-4 if r.chance(1, 2) else 1e-4 * r.int(0, 3000) for _ in range(n)]
    w[r.int(0, n - 1)] = 0.0
    w[r.pick([i for i in range(n)])] = 4e-4
    tot = sum(w)
    w.insert(r.int(0, n), 1.0 - tot if tot < 1 else 0.5)
    return dict(w=w, how=r.pick(["raw", "norm", "array"]), n=100000)


SUBS = [
    Sub("small", gen_small, run_resolve, 40, 800, "100000 draws from weights some of which are below 1e-3; "
        "non-trivial: several positive weights"),
    Sub("next", gen_next, run_next, 900, 15000,
        "2000 calls of next (200 for PCTMCs) in one state of a random model; exact binomial, Gamma, normal and chi2 "
        "tests; non-trivial: several successors"),
    Sub("runs", gen_runs, run_runs, 500, 8000,
        "400 runs (60 for PCTMCs) of a model whose states are visible; initial states, actions, successors, dwell times; "
        "non-trivial: two states with several successors"),
    Sub("geometric", gen_geo, run_geo, 90, 900, "500 traces of geometric length (100 for PCTMCs); non-trivial: all"),
    Sub("resolveRandom", gen_resolve, run_resolve, 400, 6000, "2000 draws from random weights with zeros, normalised, "
        "rounded, list or array; non-trivial: several positive weights"),
]
