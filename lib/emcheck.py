"""Common part of the checks of the Baum-Welch algorithm (C09-C13)."""
import gen
import em
from build import build_any, mkset, set_type, copies, is_prob_row
from ref import Ref, underflow
import jajapy as ja


def has_init(spec, traces):
    return spec["kind"] in ("HMM", "GOHMM") or any("init" in t for t, _ in traces)


def gen_traces(r, m, timed=False, **kw):
    t = gen.traces(r, m, timed=timed, **kw)
    if not has_init(m, t):
        t = gen.traces(r, m, timed=timed, **dict(kw, impossible=False))
    return t


def gen_case(r, kind, timed=False, lo=1, hi=4, big=12, nmax=5, lmax=7, maxit=3, impossible=True, minlen=1, **kw):
    m = gen.ANY[kind](r, lo=lo, hi=hi, big=big, **dict(kw, **(dict(dead=True) if kind == "MC" else {})))
    c = dict(model=m, timed=timed, it=r.int(1, maxit) if maxit > 1 else 1,
             traces=gen_traces(r, m, timed, nmax=nmax, lmax=lmax, minlen=minlen, impossible=impossible))
    if kind in ("MC", "MDP", "CTMC") and r.chance(1, 3):
        c["order"] = r.shuffle(range(m["n"] + 1))
    if kind != "MDP" and r.chance(1, 4):
        c["aslist"] = True
    return c


def gen_many(r, kind, timed=False):
    """many distinct traces with various multiplicities"""
    return gen_case(r, kind, timed, lo=2, hi=6, big=6, nmax=40, lmax=5, maxit=1, minlen=2 if timed else 1)


def gen_improbable(r, kind, timed=False):
    """long traces, down to probabilities of 1e-200"""
    m = gen.ANY[kind](r, lo=2, hi=5, big=5)
    n = r.int(40, 150)
    return dict(model=m, timed=timed, it=1,
                traces=gen.traces(r, m, timed=timed, nmax=3, lmax=n + 30, minlen=n, impossible=False, wide=False))


IMPROBABLE = "2-5 states, 1-3 traces of 40-180 observations (probabilities down to 1e-200), one iteration"


def fit(case, it, eps=-1e9, traces=None, **kw):
    spec = case["model"]
    m = build_any(case)
    traces = case["traces"] if traces is None else traces
    s = copies(traces) if case.get("aslist") else mkset(traces, set_type(spec, case.get("timed", False)))
    return ja.BW().fit(s, initial_model=m, max_it=it, epsilon=eps, stormpy_output=False, verbose=0, **kw)


def read(h, spec, order=None):
    """the learned model as a Ref numbered as the spec; order[i] = spec state of state i of h"""
    ref = em.clone(Ref(spec))
    k, n = spec["kind"], ref.n
    order = list(order) if order else list(range(n))
    inv = [order.index(s) for s in range(n)]
    ref.init = [float(h.pi(inv[s])) for s in range(n)]
    if k not in ("HMM", "GOHMM"):
        ref.labels = [h.getLabel(inv[s]) for s in range(n)]
    for s in range(n):
        i = inv[s]
        if k == "MDP":
            ref.P[s] = {}
            for a in h.getActions():
                row = {t: float(h.a(i, inv[t], a)) for t in range(n)}
                row = {t: x for t, x in row.items() if x != 0.0}
                if row:
                    ref.P[s][a] = row
        else:
            f = (lambda j: h.l(i, j, h.getLabel(i))) if k == "CTMC" else (lambda j: h.a(i, j))
            row = {t: float(f(inv[t])) for t in range(n)}
            ref.P[s] = {t: x for t, x in row.items() if x != 0.0}
    if k == "HMM":
        ref.E = [{o: float(h.b(s, o)) for o in h.getAlphabet() if float(h.b(s, o)) != 0.0} for s in range(n)]
    elif k == "GOHMM":
        ref.out = [[[float(y) for y in x] for x in row] for row in h.output]
    return ref


def same_kind(ctx, h, spec):
    name = dict(GOHMM="GoHMM").get(spec["kind"], spec["kind"])
    ctx.check(type(h).__name__ == name, "type of the learned model: %s" % type(h).__name__)
    n = spec["n"] + (0 if spec["kind"] in ("HMM", "GOHMM") else 1)
    ctx.check(h.nb_states == n, "number of states of the learned model: %r" % h.nb_states)


def compare_rows(ctx, got, want, msg, rel):
    for t in set(got) | set(want):
        g, w = got.get(t, 0.0), want.get(t, 0.0)
        if w == 0.0:
            ctx.check(g == 0.0, "%s -> %r: got %r, expected 0" % (msg, t, g))
        ctx.close(g, w, "%s -> %r" % (msg, t), rel=rel, abs_=1e-11)


def diff(ctx, got, want, rel=1e-7):
    """raises a violation when the two Refs differ"""
    k = got.kind
    if hasattr(want, "labels"):
        ctx.check(got.labels == want.labels, "labels changed", got.labels, want.labels)
    for s in range(want.n):
        ctx.close(got.init[s], want.init[s], "initial probability of %d" % s, rel=rel, abs_=1e-11)
        if k == "MDP":
            ctx.check(set(got.P[s]) == set(a for a, x in want.P[s].items() if any(x.values())),
                      "available actions of state %d" % s, sorted(got.P[s]), sorted(want.P[s]))
            for a in want.P[s]:
                compare_rows(ctx, got.P[s].get(a, {}), want.P[s][a], "state %d action %s" % (s, a), rel)
        else:
            compare_rows(ctx, got.P[s], want.P[s], "state %d" % s, rel)
        if k == "HMM":
            compare_rows(ctx, got.E[s], want.E[s], "emissions of state %d" % s, rel)
        elif k == "GOHMM":
            for d in range(len(want.out[s])):
                scale = max(abs(x) for o in want.out for x in o[d])
                ctx.close(got.out[s][d][0], want.out[s][d][0], "mean %d of state %d" % (d, s), rel=rel, abs_=1e-8 * scale)
                ctx.close(got.out[s][d][1], want.out[s][d][1], "deviation %d of state %d" % (d, s), rel=rel, abs_=1e-8 * scale)


def support(ctx, got, ref0):
    """what was 0 is still 0, and every row is valid"""
    k = ref0.kind
    for s in range(ref0.n):
        if k == "MDP":
            for a in got.P[s]:
                ctx.check(a in ref0.P[s], "action %s became available in %d" % (a, s))
                ctx.check(set(got.P[s][a]) <= set(ref0.P[s][a]), "a transition of probability 0 became possible", s, a)
                is_prob_row(ctx, list(got.P[s][a].values()), "row of %d, %s" % (s, a))
            ctx.check(set(got.P[s]) == set(ref0.P[s]), "an action of state %d became unavailable" % s)
            continue
        ctx.check(set(got.P[s]) <= set(ref0.P[s]), "a transition of probability 0 became possible", s, got.P[s])
        if k == "CTMC":
            ctx.check(all(x >= 0 for x in got.P[s].values()), "negative rate", got.P[s])
        elif ref0.P[s]:
            is_prob_row(ctx, list(got.P[s].values()), "row of %d" % s)
        if k == "HMM":
            ctx.check(set(got.E[s]) <= set(ref0.E[s]), "an emission of probability 0 became possible", s, got.E[s])
            is_prob_row(ctx, list(got.E[s].values()), "emissions of %d" % s)
        elif k == "GOHMM":
            ctx.check(all(x[1] >= 0 for x in got.out[s]), "negative deviation", got.out[s])
    if k in ("HMM", "GOHMM"):
        is_prob_row(ctx, got.init, "initial distribution")
        for p, q in zip(got.init, ref0.init):
            ctx.check(q > 0 or p == 0.0, "an initial probability of 0 became positive", got.init)
    else:
        ctx.check(got.init == ref0.init, "initial state changed", got.init)


def fixed_matrix(case):
    import numpy as np
    n = case["model"]["n"] + 1
    order = case.get("order") or list(range(n))
    inv = [order.index(s) for s in range(n)]
    f = np.full((n, n), False)
    for s, t in case["fixed"]:
        f[inv[s], inv[t]] = True
    return f


def run_exact(case, ctx):
    """the learned model after case['it'] iterations against the reference"""
    spec, timed, it = case["model"], case.get("timed", False), case["it"]
    ref = Ref(spec)
    if underflow(ref, case["traces"], timed):
        ctx.tag("underflow, not compared")
        return
    fixed = {tuple(x) for x in case.get("fixed") or []}
    kw = dict(fixed_parameters=fixed_matrix(case)) if fixed else {}
    variants = ["old", "new"] if spec["kind"] == "GOHMM" else ["old"]
    wants = []
    try:
        for v in variants:
            cur, lls = ref, []
            for _ in range(it):
                nxt, ll = em.step(cur, case["traces"], timed, fixed, v)
                if nxt is None:
                    ctx.tag("no possible trace")
                    return
                cur = nxt
                lls.append(ll)
            wants.append((cur, lls))
    except em.Degenerate as e:
        ctx.tag("degenerate, not compared")
        if spec["kind"] != "GOHMM":
            ctx.tag("degenerate, validity only")
            support(ctx, read(fit(case, it, **kw), spec, case.get("order")), ref)
        return
    ctx.tag("iterations %d" % it)
    possible = sum(1 for t, _ in case["traces"] if (ref.density(t) if timed else ref.prob(t)) > 0)
    ctx.tag("some impossible" if possible < len(case["traces"]) else "all possible")
    zero = spec["kind"] == "GOHMM" and any(x[1] == 0.0 for w, _ in wants for row in w.out for x in row)
    if zero:
        ctx.tag("deviation 0")
    ctx.nontrivial(zero or abs(wants[0][1][-1] - em.loglik(wants[0][0], case["traces"], timed)) > 1e-9 or
                   (len(wants[0][1]) > 1 and abs(wants[0][1][0] - wants[0][1][-1]) > 1e-9))
    h, info = fit(case, it, return_data=True, **kw)
    same_kind(ctx, h, spec)
    got = read(h, spec, case.get("order"))
    support(ctx, got, ref)
    for s, t in fixed:
        ctx.check(got.P[s].get(t, 0.0) == ref.P[s].get(t, 0.0), "fixed rate %d -> %d changed" % (s, t), got.P[s], ref.P[s])
    err = None
    for want, lls in wants:
        try:
            diff(ctx, got, want, rel=1e-6 if it > 1 else 1e-8)
            ctx.check(info["learning_rounds"] == it, "learning_rounds %r instead of %d" % (info["learning_rounds"], it))
            ctx.close(float(info["training_set_loglikelihood"]), lls[-1], "training_set_loglikelihood", rel=1e-7, abs_=1e-9)
            return
        except AssertionError as e:
            err = err or e
    raise err


def run_monotone(case, ctx):
    """likelihood along up to 12 iterations"""
    spec, timed = case["model"], case.get("timed", False)
    ref = Ref(spec)
    traces = case["traces"]
    try:
        if underflow(ref, traces, timed) or em.step(ref, traces, timed)[0] is None:
            ctx.tag("not compared")
            return
    except em.Degenerate:
        ctx.tag("degenerate")
        return
    fixed = case.get("fixed") or []
    kw = dict(fixed_parameters=fixed_matrix(case)) if fixed else {}
    prev = em.loglik(ref, traces, timed)
    first = prev
    was = sum(1 for t, _ in traces if (ref.density(t) if timed else ref.prob(t)) > 0)
    for it in case["its"]:
        got = read(fit(case, it, **kw), spec, case.get("order"))
        support(ctx, got, ref) if it < 30 else None
        if spec["kind"] == "GOHMM":
            try:
                em.vanishing(got, traces)
            except em.Vanishing:
                ctx.tag("degenerate")
                break
        if underflow(got, traces, timed):
            ctx.tag("underflow")
            break
        now = sum(1 for t, _ in traces if (got.density(t) if timed else got.prob(t)) > 0)
        ctx.check(now >= was, "a possible trace became impossible")
        ll = em.loglik(got, traces, timed)
        ctx.check(ll >= prev - 1e-7 * (1 + abs(prev)), "after %d iterations the loglikelihood is %r, it was %r" % (it, ll, prev))
        prev = ll
    ctx.nontrivial(prev > first + 1e-6)
