"""C03: the loglikelihood of non-timed traces is the average log-probability."""
import gen
from build import Sub, build, build_any, copies, mkset, set_type
from ref import Ref, paths_prob, underflow
import jajapy as ja

KINDS = ["MC", "MDP", "HMM", "CTMC", "PCTMC"]


def model(r, k, **kw):
    if k == "MC":
        kw["dead"] = True
    if k == "PCTMC":
        return gen.pctmc(r, hi=3, big=3, **kw)
    return gen.ANY[k](r, **kw)


def gen_sets(r, kinds=KINDS):
    k = r.pick(kinds)
    m = model(r, k)
    c = dict(model=m, traces=gen.traces(r, m, nmax=3 if k == "PCTMC" else 7, lmax=5 if k == "PCTMC" else 8))
    if k in ("MC", "MDP", "CTMC") and r.chance(1, 3):
        c["order"] = r.shuffle(range(m["n"] + 1))
    c["perm"] = r.shuffle(range(len(c["traces"])))
    return c


def gen_long(r):
    k = r.pick(["MC", "MDP", "HMM", "CTMC"])
    m = model(r, k, lo=2, hi=4, big=4, tiny=False) if k != "CTMC" else model(r, k, lo=2, hi=4, big=4)
    return dict(model=m, traces=gen.traces(r, m, nmax=3, lmax=45, minlen=15, impossible=False), perm=None)


def gen_improbable(r):
    k = r.pick(["MC", "MDP", "HMM", "CTMC"])
    m = gen.ANY[k](r, lo=2, hi=5, big=5)
    n = r.int(40, 150)
    return dict(model=m, perm=None, traces=gen.traces(r, m, nmax=3, lmax=n + 30, minlen=n, impossible=False, wide=False))


def gen_large(r):
    k = r.pick(["MC", "MDP", "HMM", "CTMC"])
    m = model(r, k, n=r.int(8, 14))
    return dict(model=m, traces=gen.traces(r, m, nmax=4, lmax=6), perm=None)


def run(case, ctx):
    spec, traces = case["model"], case["traces"]
    ref = Ref(spec)
    if underflow(ref, traces):
        ctx.tag("underflow, not compared")
        return
    want, possible = ref.loglik(traces)
    ctx.tag(spec["kind"])
    ctx.tag("all possible" if possible == len(traces) else "some impossible" if possible else "none possible")
    ctx.nontrivial(len(traces) > 1 and possible > 0 and want < -1e-9)
    if spec["n"] <= 3:
        for t, _ in traces:
            if len(t) <= 7:
                ctx.close(ref.prob(t), paths_prob(ref, t), "oracle: forward vs paths")
    m = build_any(case)
    t = set_type(spec)
    got = m.logLikelihood(mkset(traces, t))
    ctx.close(got, want, "logLikelihood(Set)")
    if case["perm"] is None:
        return
    # order of the traces, same model object
    ctx.close(m.logLikelihood(mkset([traces[i] for i in case["perm"]], t)), want, "logLikelihood, other order")
    # copies instead of multiplicities
    lst = copies([traces[i] for i in case["perm"]])
    s = ja.Set(lst, None, t)
    ctx.close(m.logLikelihood(s), want, "logLikelihood of a Set made from a list with copies")
    # one trace at a time
    tot = sum(c * m.logLikelihood(mkset([(tr, c)], t)) for tr, c in traces)
    ctx.close(tot / sum(c for _, c in traces), want, "logLikelihood trace by trace")


def run_real(case, ctx):
    import realpool
    want, _ = Ref(case["model"]).loglik(case["traces"])
    ctx.nontrivial(len(case["traces"]) > 1)
    ctx.close(realpool.call("loglik", case), want, "logLikelihood with real processes")


SUBS = [
    Sub("sets", gen_sets, run, 2400, 40000,
        "random MC/MDP/HMM/CTMC/PCTMC and set of traces (walks of the model with shared prefixes, some mutated); "
        "non-trivial: several traces, at least one possible"),
    Sub("long", gen_long, run, 1600, 20000, "2-4 states, traces of 15-45 observations; non-trivial: several traces"),
    Sub("improbable", gen_improbable, run, 160, 3000, "2-5 states, 1-3 traces of 40-180 observations (probabilities down to 1e-200)"),
    Sub("large", gen_large, run, 1200, 15000, "8-14 states; non-trivial: several traces"),
    Sub("real_processes", lambda r: gen_sets(r, ["MC", "MDP", "HMM", "CTMC"]), run_real, 4, 24,
        "as sets, in a new interpreter with real process pools", mode="multi"),
    Sub("enlarged", gen.enlarged(lambda r: gen_sets(r, ["MC", "MDP", "HMM", "CTMC"])), run, 240, 4000, "models with 16-44 states; non-trivial: several traces"),
]
