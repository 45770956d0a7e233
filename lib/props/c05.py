"""C05: GoHMM densities and loglikelihoods."""
import math
import gen
from build import Sub, build, copies, mkset
from ref import Ref, gauss, paths_prob, underflow
import jajapy as ja


def gen_density(r):
    m = gen.gohmm(r)
    pts = [[r.int(-100, 100) / 10 for _ in range(m["d"])] for _ in range(r.int(1, 5))]
    # points near the means, at the means
    for row in m["out"][:2]:
        pts.append([mu for mu, _ in row])
        pts.append([mu + sg * r.int(-30, 30) / 10 for mu, sg in row])
    return dict(model=m, points=pts)


def run_density(case, ctx):
    spec = case["model"]
    m = build(spec)
    ctx.nontrivial(spec["n"] > 1 or spec["d"] > 1)
    for s in range(spec["n"]):
        ctx.check([float(x) for x in m.mu(s)] == [x[0] for x in spec["out"][s]], "mu(%d)" % s)
        for d in range(spec["d"]):
            ctx.close(float(m.mu_n(s, d)), spec["out"][s][d][0], "mu_n")
        for x in case["points"]:
            ctx.close(float(m.b(s, x)), gauss(spec["out"][s], x), "b(%d,%r)" % (s, x), rel=1e-9, abs_=1e-300)
            for d in range(spec["d"]):
                ctx.close(float(m.b_n(s, d, x[d])), gauss([spec["out"][s][d]], [x[d]]), "b_n", abs_=1e-300)
            for t in range(spec["n"]):
                ctx.close(float(m.tau(s, t, x)), spec["P"][s][t] * gauss(spec["out"][s], x), "tau", abs_=1e-300)


def gen_sets(r):
    m = gen.gohmm(r)
    tr = gen.traces(r, m, nmax=5, lmax=7)
    return dict(model=m, traces=tr, perm=r.shuffle(range(len(tr))))


def gen_improbable(r):
    m = gen.gohmm(r, lo=2, hi=5, big=5, d=r.pick([1, 1, 2]))
    n = r.int(40, 120)
    return dict(model=m, perm=None, traces=gen.traces(r, m, nmax=3, lmax=n + 30, minlen=n, wide=False))


def gen_long(r):
    m = gen.gohmm(r, lo=2, hi=4, big=10)
    return dict(model=m, traces=gen.traces(r, m, nmax=3, lmax=40, minlen=10), perm=None)


def run(case, ctx):
    spec, traces = case["model"], case["traces"]
    ref = Ref(spec)
    if underflow(ref, traces):
        ctx.tag("underflow, not compared")
        return
    want, possible = ref.loglik(traces)
    ctx.tag("%d distribution(s)" % spec["d"])
    ctx.nontrivial(len(traces) > 1 and spec["n"] > 1)
    if spec["n"] <= 3:
        for t, _ in traces:
            if len(t) <= 6:
                a, b = ref.prob(t), paths_prob(ref, t)
                ctx.close(a, b, "oracle: forward vs paths", abs_=1e-300)
    m = build(spec)
    ctx.close(m.logLikelihood(mkset(traces, 3)), want, "logLikelihood(Set)")
    ctx.close(m.logLikelihood(mkset(traces)), want, "logLikelihood(Set), type not given")
    if case["perm"] is None:
        return
    perm = [traces[i] for i in case["perm"]]
    ctx.close(m.logLikelihood(mkset(perm, 3)), want, "logLikelihood, other order")
    ctx.close(m.logLikelihood(ja.Set(copies(perm))), want, "logLikelihood of a Set made from a list with copies")
    tot = sum(c * m.logLikelihood(mkset([(tr, c)], 3)) for tr, c in traces)
    ctx.close(tot / sum(c for _, c in traces), want, "logLikelihood trace by trace")


def run_real(case, ctx):
    import realpool
    want, _ = Ref(case["model"]).loglik(case["traces"])
    ctx.nontrivial(len(case["traces"]) > 1)
    ctx.close(realpool.call("loglik", case), want, "logLikelihood with real processes")


SUBS = [
    Sub("density", gen_density, run_density, 1600, 20000,
        "random GoHMM (1-3 distributions) and observation vectors; non-trivial: several states or distributions"),
    Sub("sets", gen_sets, run, 1600, 20000,
        "random GoHMM and set of sequences of vectors; non-trivial: several sequences and states"),
    Sub("improbable", gen_improbable, run, 120, 2000, "2-5 states, 1-3 sequences of 40-150 vectors (densities down to 1e-200)"),
    Sub("long", gen_long, run, 400, 6000, "2-10 states, sequences of 10-40 vectors; non-trivial: several sequences"),
    Sub("real_processes", gen_sets, run_real, 4, 24, "as sets, with real process pools", mode="multi"),
]
