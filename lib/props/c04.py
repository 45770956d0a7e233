"""C04: the loglikelihood of timed traces is the average log-density."""
import math
import gen
from build import Sub, build, build_any, copies, mkset, set_type
from ref import Ref, paths_prob, underflow
import jajapy as ja


def gen_sets(r, kinds=("CTMC", "CTMC", "PCTMC"), big=True):
    k = r.pick(kinds)
    if k == "PCTMC":
        m = gen.pctmc(r, hi=3, big=3)
        tr = gen.traces(r, m, nmax=3, lmax=4, timed=True, minlen=2)
    else:
        m = gen.ctmc(r)
        tr = gen.traces(r, m, nmax=6, lmax=8, timed=True, minlen=2)
    c = dict(model=m, traces=tr, timed=True, scale=r.pick([0.1, 0.5, 2.0, 3.0, 10.0]))
    if k == "CTMC" and r.chance(1, 3):
        c["order"] = r.shuffle(range(m["n"] + 1))
    if k == "CTMC" and r.chance(1, 10):
        c["traces"] = tr + [["init"], r.int(1, 3)] if False else tr + [[["init"], r.int(1, 3)]]
    if r.chance(1, 25):                     # density 1
        c["traces"] = [[["init"], r.int(1, 3)]]
    c["perm"] = r.shuffle(range(len(c["traces"])))
    return c


def gen_improbable(r):
    m = gen.ctmc(r, lo=2, hi=5, big=5, absorbing=False)
    n = r.int(40, 150)
    return dict(model=m, perm=None, timed=True, scale=r.pick([0.5, 2.0]),
                traces=gen.traces(r, m, nmax=3, lmax=n + 30, minlen=n, timed=True, impossible=False, wide=False))


def gen_long(r):
    m = gen.ctmc(r, lo=2, hi=5, big=12, absorbing=False)
    return dict(model=m, traces=gen.traces(r, m, nmax=4, lmax=30, minlen=8, timed=True, impossible=False), perm=None,
                timed=True, scale=r.pick([0.5, 2.0]))


def scaled(spec, k):
    """all rates and initial rates of the states other than 'init' times k"""
    s = dict(spec)
    if s["kind"] == "CTMC":
        s["R"] = [[x * k for x in row] for row in s["R"]]
    else:
        s["T"] = [[None if e is None else "%r*(%s)" % (k, e) for e in row] for row in s["T"]]
    return s


def run(case, ctx):
    spec, traces = case["model"], case["traces"]
    ref = Ref(spec)
    if underflow(ref, traces, True):
        ctx.tag("underflow, not compared")
        return
    want, possible = ref.loglik(traces, timed=True)
    ctx.tag(spec["kind"])
    ctx.tag("all possible" if possible == len(traces) else "some impossible" if possible else "none possible")
    ctx.nontrivial(len(traces) > 1 and possible > 0)
    if spec["n"] <= 3:
        for t, _ in traces:
            if len(t) <= 9:
                ctx.close(ref.density(t), paths_prob(ref, t, True), "oracle: forward vs paths")
    m = build_any(case)
    if not possible:
        m.logLikelihood(mkset(traces, 4))
        return
    ctx.close(m.logLikelihood(mkset(traces, 4)), want, "logLikelihood(Set)")
    # scaling: rates times k, times divided by k (the state 'init' keeps its rates: its dwell time as well)
    k = case["scale"]
    if possible == len(traces):
        ms = build_any(dict(case, model=scaled(spec, k)))
        tr2, extra, tot = [], 0.0, 0
        for t, c in traces:
            t2 = list(t)
            for i in range(1, len(t), 2):
                if t[i - 1] != "init":
                    t2[i] = t[i] / k
                    extra += c * math.log(k)
            tr2.append([t2, c])
            tot += c
        ctx.close(ms.logLikelihood(mkset(tr2, 4)), want + extra / tot, "logLikelihood after scaling time by %r" % k)
    if case["perm"] is None:
        return
    perm = [traces[i] for i in case["perm"]]
    ctx.close(m.logLikelihood(mkset(perm, 4)), want, "logLikelihood, other order")
    ctx.close(m.logLikelihood(ja.Set(copies(perm), None, 4)), want, "logLikelihood of a Set made from a list with copies")
    if len(traces[0][0]) > 1:  # the type is then recognised
        ctx.close(m.logLikelihood(mkset(traces)), want, "logLikelihood(Set), type not given")


def run_real(case, ctx):
    import realpool
    want, possible = Ref(case["model"]).loglik(case["traces"], timed=True)
    ctx.nontrivial(possible > 1)
    if possible:
        ctx.close(realpool.call("loglik", case), want, "logLikelihood with real processes")


SUBS = [
    Sub("sets", gen_sets, run, 1600, 24000,
        "random CTMC/instantiated PCTMC and set of timed traces (walks with shared prefixes, some mutated); "
        "non-trivial: several traces, at least one possible"),
    Sub("improbable", gen_improbable, run, 160, 3000, "2-5 states, 1-3 traces of 40-180 dwell times (densities down to 1e-200)"),
    Sub("long", gen_long, run, 800, 12000, "2-12 states, traces of 8-30 dwell times; non-trivial: several traces"),
    Sub("real_processes", lambda r: gen_sets(r, ["CTMC"]), run_real, 4, 24,
        "as sets, in a new interpreter with real process pools", mode="multi"),
    Sub("enlarged", gen.enlarged(lambda r: gen_sets(r, ["CTMC"])), run, 160, 2400, "models with 16-44 states; non-trivial: several traces"),
]
