"""C26: the embedded chain of a CTMC agrees with the CTMC."""
import copy
import math
import gen
from build import Sub, build_any, build, mkset, snapshot
from ref import Ref, underflow
from jajapy.with_stormpy.model_converter import PCTMCtoCTMC
import jajapy as ja


def gen_case(r):
    m = gen.ctmc(r, lo=1, hi=5, big=12)
    for s in range(m["n"]):
        if r.chance(1, 5):
            k = r.pick([1e-6, 1e6, 1e-3, 1e3])
            m["R"][s] = [x * k for x in m["R"][s]]
        if r.chance(1, 8) and any(m["R"][s]):
            t = r.pick([i for i, x in enumerate(m["R"][s]) if x])
            m["R"][s][t] *= r.pick([1e-5, 1e-3, 1e5])
    c = dict(model=m, traces=gen.traces(r, m, nmax=6, lmax=7), k=r.pick([2.0, 0.1, 7.3, 1e3, 1e-4]), name=r.pick(["emb", "x y"]))
    if r.chance(1, 3):
        c["order"] = r.shuffle(range(m["n"] + 1))
    return c


def chain(ctx, mc, ref, inv, msg):
    n = ref.n
    ctx.check(type(mc).__name__ == "MC" and mc.nb_states == n, msg + "kind or size")
    for s in range(n):
        j = ref.jump(s)
        ctx.check(mc.getLabel(inv[s]) == ref.labels[s], msg + "label of %d" % s)
        ctx.close(float(mc.pi(inv[s])), ref.init[s], msg + "initial distribution")
        for t in range(n):
            ctx.close(float(mc.a(inv[s], inv[t])), j.get(t, 0.0), msg + "probability of %d -> %d" % (s, t), rel=1e-12, abs_=0)
        ctx.close(sum(float(mc.a(inv[s], t)) for t in range(n)), 1.0, msg + "sum of row %d" % s, rel=1e-12)


def run(c, ctx):
    spec = c["model"]
    m = build_any(c)
    ref = Ref(spec)
    n = ref.n
    order = c.get("order") or list(range(n))
    inv = [order.index(s) for s in range(n)]
    before = snapshot(m)
    mc = m.toMC(name=c["name"])
    ctx.check(snapshot(m) == before, "toMC changed the CTMC")
    ctx.check(mc.name == c["name"], "name", mc.name)
    chain(ctx, mc, ref, inv, "")
    ctx.nontrivial(spec["n"] > 1 and any(len(x) > 1 for x in ref.P))
    chain(ctx, m.toMC(), ref, inv, "second call: ")
    # the probabilities as the CTMC sees them
    for s in range(n):
        lab = ref.labels[s]
        for t in range(n):
            ctx.close(float(m.tau(inv[s], inv[t], lab)), ref.jump(s).get(t, 0.0), "tau(%d,%d)" % (s, t), rel=1e-12, abs_=0)
            ctx.check(m.tau(inv[s], inv[t], lab + "x") == 0.0, "tau with another label")
        e = ref.exit(s)
        ctx.close(float(m.e(inv[s])), e, "exit rate of %d" % s, rel=1e-12, abs_=0)
        if e > 0:
            mean = float(m.expected_time(inv[s]))
            ctx.close(mean, 1 / e, "expected_time", rel=1e-12, abs_=0)
            # Simpson on [0, 45 mean]; densities
            N, T = 900, 45.0 / e
            h = T / N
            f = [float(m.lkl(inv[s], i * h)) for i in range(N + 1)]
            w = [1 if i in (0, N) else 4 if i % 2 else 2 for i in range(N + 1)]
            ctx.close(sum(a * b for a, b in zip(w, f)) * h / 3, 1.0, "integral of the density of the dwell time", rel=1e-6)
            ctx.close(sum(a * b * i * h for i, (a, b) in enumerate(zip(w, f))) * h / 3, mean, "mean of the dwell time", rel=1e-5)
            ctx.check(all(x >= 0 for x in f), "negative density")
            ctx.check(m.lkl(inv[s], -1.0) == 0.0 or math.isfinite(m.lkl(inv[s], -1.0)), "lkl")
    # likelihoods
    s = mkset(c["traces"], 0)
    if not underflow(ref, c["traces"]):
        want = ref.loglik(c["traces"])[0]
        a, b = float(m.logLikelihood(mkset(c["traces"], 0))), float(mc.logLikelihood(s))
        ctx.close(a, b, "logLikelihood of the CTMC and of its chain", rel=1e-9)
        ctx.close(b, want, "logLikelihood of the chain", rel=1e-9)
        scaled = copy.deepcopy(spec)
        scaled["R"] = [[x * c["k"] for x in row] for row in scaled["R"]]
        m2 = build_any(dict(c, model=scaled))
        ctx.close(float(m2.logLikelihood(mkset(c["traces"], 0))), a, "logLikelihood after scaling the rates", rel=1e-9)
        chain(ctx, m2.toMC(), ref, inv, "scaled: ") if not any(x and x * c["k"] < 1e-300 for row in spec["R"] for x in row) and \
            c["k"] in (2.0,) else None
        ctx.tag("likelihood")
    # nothing is shared
    mc.updateLabelling(["zz" + str(i) if x != "init" else x for i, x in enumerate(mc.getLabel(i) for i in range(n))])
    mc.matrix *= 0.5
    ctx.check(snapshot(m) == before, "changing the chain changed the CTMC")


def gen_pctmc(r):
    m = gen.pctmc(r, hi=4, big=5)
    return dict(model=m, traces=gen.traces(r, m, nmax=5, lmax=6))


def run_pctmc(c, ctx):
    """the chain of the CTMC of a PCTMC"""
    spec = c["model"]
    ref = Ref(spec)
    if any(x < 0 for row in ref.P for x in row.values()):
        ctx.tag("negative rate")
        return
    m = build(spec)
    mc = PCTMCtoCTMC(m).toMC()
    for s in range(ref.n):
        j = ref.jump(s)
        for t in range(ref.n):
            ctx.close(float(mc.a(s, t)), j.get(t, 0.0), "probability of %d -> %d" % (s, t), rel=1e-9)
            ctx.close(float(m.tau(s, t, ref.labels[s])), j.get(t, 0.0), "PCTMC.tau(%d,%d)" % (s, t), rel=1e-9)
    if not underflow(ref, c["traces"]):
        ctx.close(float(m.logLikelihood(mkset(c["traces"], 0))), float(mc.logLikelihood(mkset(c["traces"], 0))),
                  "logLikelihood of the PCTMC and of the chain", rel=1e-8)
    ctx.nontrivial(spec["n"] > 1)


SUBS = [
    Sub("ctmc", gen_case, run, 1800, 40000,
        "random CTMCs (absorbing states, rates of very different magnitudes): chain, densities (Simpson), likelihoods of "
        "untimed traces, scaled rates; non-trivial: a state with several successors"),
    Sub("pctmc", gen_pctmc, run_pctmc, 500, 8000, "the same for the CTMC of an instantiated PCTMC; non-trivial: several states"),
    Sub("enlarged", gen.enlarged(gen_case), run, 80, 1200, "ctmc with 16-44 states"),
]
