"""C14: fitting a PCTMC improves the likelihood and touches only what it may."""
import math
import random
import re
import sympy
import gen
import em
from build import Sub, build, mkset, copies
from emcheck import gen_traces
from ref import Ref, ev, sy, text, underflow
from props.c19 import walks, pref, load
from props.c21 import module
import jajapy as ja


def one_param(r, params, general):
    return gen.const(r) if r.chance(1, 6) else gen.monomial(r, params, maxpow=r.pick([1, 1, 2, 3]), nmax=1)


def mono(r, params, general):
    return gen.expr(r, params, False)


def gen_case(r, exprs=None, timed=None, fixed=True):
    m = gen.pctmc(r, lo=2, hi=3, big=4, exprs=exprs or r.pick([one_param, mono]))
    timed = r.chance(1, 2) if timed is None else timed
    c = dict(model=m, timed=timed, traces=gen_traces(r, m, timed, nmax=3, lmax=6))
    c["fixed"] = [p for p in m["params"] if fixed and r.chance(1, 4)]
    c["update_constant"] = r.chance(1, 2)
    c["its"] = r.pick([[1], [1, 2], [1, 2, 3], [2, 3], [1, 4, 5]])
    return c


def fit(case, m, it, **kw):
    s = mkset(case["traces"], 4 if case["timed"] else 0)
    return ja.BW().fit(s, initial_model=m, max_it=it, epsilon=-1e9, stormpy_output=False, verbose=0,
                       fixed_parameters=case["fixed"] or False, update_constant=case["update_constant"], **kw)


def read(h, spec):
    """rates of the learned model by its own expressions and parameter values: (values, Ref)"""
    vals = {p: float(h.parameterValue(p)) for p in spec["params"]}
    ref = em.clone(Ref(spec))
    n = ref.n
    ref.labels = [h.getLabel(i) for i in range(n)]
    ref.init = [float(h.pi(i)) for i in range(n)]
    X = {}
    for s in range(n):
        ref.P[s] = {}
        for t in range(n):
            e = h.transitionExpression(s, t)
            X[s, t] = e
            x = float(ev(text(e), vals))
            if x != 0.0:
                ref.P[s][t] = x
    return vals, ref, X


def same_up_to_constants(ctx, got, want, const_may_change, msg):
    """got: sympy expression, want: string or None"""
    want = sy(want if want is not None else "0")
    if want.is_number:
        ctx.check(got.is_number, msg + ": a constant rate became %s" % got)
        if not const_may_change or want == 0:
            ctx.check(float(got) == float(want), msg + ": constant changed from %s to %s" % (want, got))
        return
    q = sympy.simplify(got / want)
    ctx.check(q.is_number, "%s: expression %s became %s" % (msg, want, got))
    ctx.check(abs(float(q) - 1) < 1e-12 or const_may_change, "%s: constant of %s became %s" % (msg, want, got))


def counts(ref, case):
    """expected transitions and dwell times under ref; without observed times, a visit lasts 1/exit rate on average, and
    the state after the last observation is not observed"""
    N, D = {}, {}
    for tr, m in case["traces"]:
        p, gamma, xi = em.posterior(ref, tr, case["timed"])
        if p == 0.0:
            continue
        for i, x in enumerate(xi):
            for k, v in x.items():
                N[k] = N.get(k, 0.0) + m * v
        for i, g in enumerate(gamma):
            if case["timed"]:
                if i < len(xi):
                    for s, v in g.items():
                        D[s] = D.get(s, 0.0) + m * v * tr[2 * i + 1]
                continue
            for s, v in g.items():
                e = ref.exit(s)
                if e > 0:
                    D[s] = D.get(s, 0.0) + m * v / e
                    if i == len(xi):
                        for t, x in ref.P[s].items():
                            N[s, t] = N.get((s, t), 0.0) + m * v * x / e
    return N, D


def power(expr, p):
    return int(sympy.degree(sy(expr), sympy.Symbol(p)))


def run(case, ctx, seen=None):
    spec, timed = case["model"], case["timed"]
    ref0 = Ref(spec)
    traces = case["traces"]
    try:
        if underflow(ref0, traces, timed) or em.step(ref0, traces, timed)[0] is None:
            ctx.tag("not compared")
            return
    except em.Degenerate:
        ctx.tag("degenerate, not compared")
        return
    ctx.tag("timed" if timed else "not timed")
    free = [p for p in spec["params"] if p not in case["fixed"]]
    prev = first = em.loglik(ref0, traces, timed)
    n = ref0.n
    last, start, now_ref = 0, spec["values"], ref0
    for it in case["its"]:
        h = fit(case, build(spec), it)
        ctx.check(type(h).__name__ == "PCTMC" and h.nb_states == n, "type or size of the learned model")
        vals, got, X = read(h, spec)
        if seen is not None:
            seen.append(vals)
        ctx.check(got.labels == ref0.labels and got.init == ref0.init, "labels or initial state changed")
        ctx.check(list(h.parameter_str) == list(spec["params"]), "parameters changed")
        for p in case["fixed"]:
            ctx.check(vals[p] == spec["values"][p], "fixed parameter %s changed to %r" % (p, vals[p]))
        for s in range(n):
            for t in range(n):
                if s < n - 1:
                    e = spec["T"][s][t] if t < n - 1 else None
                else:
                    e = repr(ref0.P[s][t]) if t in ref0.P[s] else None
                same_up_to_constants(ctx, X[s, t], e, case["update_constant"], "rate %d -> %d" % (s, t))
                ctx.check(got.P[s].get(t, 0.0) >= 0.0, "negative rate %d -> %d" % (s, t), got.P[s])
                ctx.close(float(h.l(s, t, got.labels[s])), got.P[s].get(t, 0.0), "l(%d,%d)" % (s, t))
                ctx.check(t in ref0.P[s] or t not in got.P[s], "a rate 0 became positive")
        if underflow(got, traces, timed):
            ctx.tag("underflow")
            return
        ll = em.loglik(got, traces, timed)
        now = sum(1 for t, _ in traces if (got.density(t) if timed else got.prob(t)) > 0)
        was = sum(1 for t, _ in traces if (ref0.density(t) if timed else ref0.prob(t)) > 0)
        ctx.check(now >= was, "a possible trace became impossible")
        ctx.check(ll >= prev - 1e-7 * (1 + abs(prev)), "after %d iterations the loglikelihood is %r, it was %r" % (it, ll, prev))
        prev = ll
        if it == last + 1:
            try:
                closed_form(case, ctx, spec, now_ref, free, start, vals, got)
            except em.Degenerate:
                ctx.tag("degenerate step")
        last, start, now_ref = it, vals, got
    ctx.nontrivial(prev > first + 1e-6)


# ------------------------------------------------------------------ parameters that get the value 0
def gen_vanish(r):
    c = gen_case(r, exprs=mono if r.chance(3, 4) else one_param)
    c["model"] = gen.pctmc(r, lo=3, hi=4, big=5, nparams=r.int(2, 4), exprs=mono if r.chance(3, 4) else one_param)
    if r.chance(2, 3):
        c["model"]["labels"] = r.shuffle(gen.LABELS[:c["model"]["n"]])
    c["timed"] = r.chance(1, 2)
    c["traces"] = gen_traces(r, c["model"], c["timed"], nmax=2, lmax=5)
    c["its"] = r.pick([[1, 2], [1, 2, 3], [1, 2, 3, 4], [2, 3]])
    c["fixed"] = c["fixed"] and [p for p in c["model"]["params"] if r.chance(1, 5)]
    return c


def run_vanish(case, ctx):
    seen = []
    run(case, ctx, seen)
    zero = any(0.0 in vals.values() for vals in seen[:-1])
    for a, b in zip(seen, seen[1:]):
        for p, v in a.items():
            ctx.check(v != 0.0 or b[p] <= 1e-300, "%s was 0 and became %r" % (p, b[p]))
    ctx.trivial = not zero


def closed_form(case, ctx, spec, ref0, free, start, vals, got):
    N, D = counts(ref0, case)
    n = ref0.n
    uses = {p: [] for p in spec["params"]}
    for s in range(n - 1):
        for t in range(n - 1):
            e = spec["T"][s][t]
            if e is not None:
                for p in names(e):
                    uses[p].append((s, t, e))
    for p in free:
        # the bound of the expected loglikelihood in which the parameters are separated:
        # prod y_i^a_i <= sum a_i/c*y_i^c, with y_i = new/old value and c the sum of the powers; exact for one parameter
        alone = all(set(names(e)) & set(free) == {p} for _, _, e in uses[p])
        old = start[p]
        terms = []
        for s, t, e in uses[p]:
            a, c = power(e, p), sum(power(e, q) for q in set(names(e)) & set(free))
            terms.append((a, c, N.get((s, t), 0.0), ref0.P[s].get(t, 0.0) * D.get(s, 0.0)))
        num = sum(a * x for a, _, x, _ in terms)
        den = sum(a * d for a, _, _, d in terms)
        if den == 0.0:
            ctx.check(vals[p] == old, "%s not involved but changed from %r to %r" % (p, old, vals[p]))
            continue
        if num == 0.0 and den > 1e-100:
            ctx.check(0.0 <= vals[p] <= 1e-100, "%s is never used but its value is %r" % (p, vals[p]))
        if den < 1e-100 or num < 1e-100:
            continue
        lo, hi = 0.0, 1.0
        while sum(a * d * hi ** c for a, c, _, d in terms) < num:
            hi *= 2
        for _ in range(200):
            mid = (lo + hi) / 2
            if sum(a * d * mid ** c for a, c, _, d in terms) < num:
                lo = mid
            else:
                hi = mid
        ctx.tag("closed form" if alone else "separated bound")
        ctx.close(vals[p], old * hi, "EM estimate of %s" % p, rel=1e-6)
    if case.get("update_constant"):
        for s in range(n):
            for t in ref0.P[s]:
                if s == n - 1 or not names(spec["T"][s][t]):
                    if D.get(s, 0.0) > 1e-100:
                        ctx.tag("closed form of a constant")
                        ctx.close(got.P[s].get(t, 0.0), N.get((s, t), 0.0) / D[s], "constant rate %d -> %d" % (s, t), rel=1e-6)


def names(e):
    return re.findall(r"[a-zA-Z_]\w*", e)


# ------------------------------------------------------------------ fit_parameters, fit_nonInstantiatedParameters
def gen_params(r):
    wide = r.chance(1, 2)                # many states, few of which are seen
    m = gen.pctmc(r, lo=4 if wide else 2, hi=6 if wide else 3, big=6 if wide else 4, exprs=r.pick([one_param, mono]), nparams=r.int(1, 3))
    if len(set(m["labels"])) < 2 or wide:
        m["labels"] = r.shuffle(gen.LABELS[:m["n"]])
    timed = r.chance(1, 2)
    c = dict(model=m, timed=timed, traces=gen_traces(r, m, timed, nmax=1 if wide else 3, lmax=5 if wide else 6))
    c["fit"] = [p for p in m["params"] if r.chance(1, 2)] or [r.pick(m["params"])]
    c["way"] = r.pick(["listed", "missing"])
    keep = [p for p in m["params"] if p not in c["fit"]]
    if keep and r.chance(1, 5):
        m["values"][r.pick(keep)] = 0.0
    c["its"] = r.pick([[1], [1, 2], [1, 4]])
    c["start"] = gen.pvalue(r)
    c["return_data"] = r.chance(1, 2)
    return c


def run_params(case, ctx):
    spec, timed, traces = case["model"], case["timed"], case["traces"]
    seen = {x for t, _ in traces for x in (t[0::2] if timed else t)}
    vals = dict(spec["values"])
    if case["way"] == "missing":
        vals.update({p: case["start"] for p in case["fit"]})
    ref0 = Ref(spec, vals)
    try:
        if underflow(ref0, traces, timed) or em.step(ref0, traces, timed)[0] is None:
            ctx.tag("not compared")
            return
    except em.Degenerate:
        ctx.tag("degenerate, not compared")
        return
    ctx.tag(case["way"])
    ctx.tag("all labels" if seen >= set(ref0.labels) else "some labels never seen")
    # the exit rates of the model restricted to the labels of the traces are smaller
    keep = [i for i in range(ref0.n) if ref0.labels[i] in seen]
    restr = em.clone(ref0)

    def restricted(v):
        x = em.clone(Ref(spec, v))
        x.P = [{t: q for t, q in row.items() if t in keep} for row in x.P]
        return x
    prev = em.loglik(restricted(vals), traces, timed)
    for it in case["its"]:
        m = build(spec if case["way"] == "listed" else
                  dict(spec, values={p: v for p, v in spec["values"].items() if p not in case["fit"]}))
        s = mkset(traces, 4 if timed else 0)
        kw = dict(epsilon=-1e9, max_it=it, verbose=False, return_data=case["return_data"])
        if case["way"] == "listed":
            res = ja.BW().fit_parameters(s, m, list(case["fit"]), **kw)
        else:
            res = ja.BW().fit_nonInstantiatedParameters(s, m, min_val=case["start"], max_val=case["start"], **kw)
        if case["return_data"]:
            res, info = res
            ctx.check(info["learning_rounds"] == it, "learning_rounds", info)
        ctx.check(sorted(res) == sorted(case["fit"]), "parameters returned: %s" % sorted(res))
        new = dict(vals)
        for p in spec["params"]:
            v = float(m.parameterValue(p))
            if p in case["fit"]:
                ctx.check(v == float(res[p]), "the value returned for %s is not the one of the model" % p)
                new[p] = v
                ctx.check(v >= 0 and math.isfinite(v), "value of %s: %r" % (p, v))
            else:
                ctx.check(v == spec["values"][p], "%s changed to %r" % (p, v))
        got = restricted(new)
        if it == 1:
            closed_form(case, ctx, spec, restricted(vals), case["fit"], vals, new, None)
        if underflow(got, traces, timed):
            return
        ll = em.loglik(got, traces, timed)
        ctx.check(ll >= prev - 1e-7 * (1 + abs(prev)), "after %d iterations the loglikelihood is %r, it was %r" % (it, ll, prev))
        ctx.nontrivial(ll > prev + 1e-6)
        prev = ll


# ------------------------------------------------------------------ random starting values
def gen_bounds(r):
    m = gen.pctmc(r, lo=2, hi=3, big=4, exprs=r.pick([one_param, mono]), nparams=r.int(1, 3))
    timed = r.chance(1, 2)
    c = dict(model=m, timed=timed, traces=gen_traces(r, m, timed, nmax=3, lmax=6), update_constant=False)
    c["free"] = [p for p in m["params"] if r.chance(2, 3)] or [r.pick(m["params"])]
    lo = r.pick([0.1, 0.5, 1.0, 3.0, 20.0])
    c["lo"], c["hi"] = lo, lo * r.pick([1.0, 1.0, 1.1, 2.0])
    c["give"] = r.pick(["both", "both", "min", "max"])
    c["it"] = r.int(1, 2)
    return c


def run_bounds(case, ctx):
    """the parameters without a value start between min_val and max_val"""
    spec, free, lo, hi = case["model"], case["free"], case["lo"], case["hi"]
    known = {p: v for p, v in spec["values"].items() if p not in free}
    half = dict(spec, values=known)
    give = case["give"]
    kw = {}
    if give != "max":
        kw["min_val"] = lo
    if give != "min":
        kw["max_val"] = hi
    a = lo if give != "max" else (min(known.values()) if len(known) > 1 else 0.01)
    b = hi if give != "min" else (max(known.values()) if len(known) > 1 else 0.3)
    a, b = min(a, b), max(a, b)
    mid = dict(known, **{p: a for p in free})
    ref = Ref(dict(spec, values=mid))
    top = Ref(dict(spec, values=dict(known, **{p: b for p in free})))
    try:
        if any(underflow(x, case["traces"], case["timed"]) for x in (ref, top)) or em.step(ref, case["traces"], case["timed"])[0] is None:
            return
    except em.Degenerate:
        return
    ctx.tag(give)
    # not learned: the starting value remains
    h = fit(dict(case, fixed=list(spec["params"])), build(half), 1, **kw)
    for p in spec["params"]:
        v = float(h.parameterValue(p))
        if p in known:
            ctx.check(v == known[p], "%s had a value, %r, and got %r" % (p, known[p], v))
        elif give == "both" or len(known) > 1:      # the default bounds are not those of the documentation
            ctx.check(a - 1e-12 <= v <= b + 1e-12, "%s starts from %r, outside of [%r,%r]" % (p, v, a, b))
    if a == b:
        ctx.nontrivial()
        c = dict(case, fixed=[])
        x, y = fit(c, build(half), case["it"], **kw), fit(c, build(dict(spec, values=mid)), case["it"])
        for p in spec["params"]:
            ctx.close(float(x.parameterValue(p)), float(y.parameterValue(p)), "%s learned from %r" % (p, a), rel=1e-9)
    elif give == "both":
        ctx.nontrivial()


# ------------------------------------------------------------------ compositions and loaded models share their constants
def gen_shared(r):
    way = r.pick(["pctmcs", "pctmcs", "ctmcs", "prism"])
    c = dict(way=way, timed=r.chance(1, 2), seed=r.int(0, 10 ** 6), n=r.int(1, 5), its=r.pick([[1, 2], [1, 2, 3], [2, 4]]),
             update_constant=r.chance(3, 4), mult=r.int(1, 3), fix=r.int(0, 5))
    if way == "prism":
        c["models"] = [gen.pctmc(r, lo=2, hi=4, big=6, exprs=r.pick([one_param, mono, round_const]), prism=True)]
        return c
    ms = []
    params = gen.PARAMS[:r.int(1, 3)]
    values = {p: gen.pvalue(r) for p in params}
    for i in range(2 if way == "ctmcs" else r.pick([2, 2, 3])):
        n = r.int(2, 3) if i < 2 else 2
        if way == "ctmcs":
            m = gen.ctmc(r, n=n, self_loop=False, scales=False)
        else:
            m = gen.pctmc(r, n=n, nparams=1, absorbing=False)
            m["params"], m["values"] = r.shuffle(params), dict(values)
            f = r.pick([one_param, mono, round_const, round_const])
            m["T"] = [[None] * n for _ in range(n)]
            for x in range(n):
                for y in r.sample([y for y in range(n) if y != x], r.int(1, n - 1)):
                    m["T"][x][y] = f(r, params, False)
        m["labels"] = r.shuffle(gen.LABELS[:n]) if r.chance(2, 3) else m["labels"]
        a, b = r.sample(range(n), 2)
        m["sync"] = [[a, "A", b, gen.rate(r) if way == "ctmcs" else gen.const(r)]] if c["seed"] % 2 else []
        ms.append(m)
    c["models"] = ms
    return c


def round_const(r, params, general):
    return str(r.pick([1.0, 1.0, 2.0, 0.5])) if r.chance(2, 3) else gen.monomial(r, params, nmax=1, maxpow=1)


def shared_model(case, ctx):
    if case["way"] == "prism":
        m = build(case["models"][0])
        f = ctx.path("m.prism")
        m.savePrism(f)
        return load(f)
    ms = [module(m) for m in case["models"]]
    return ja.synchronousCompositionCTMCs(*ms) if case["way"] == "ctmcs" else ja.synchronousCompositionPCTMCs(ms)


def run_shared(case, ctx):
    m = shared_model(case, ctx)
    if type(m).__name__ != "PCTMC":
        ctx.tag("no parameter left")
        return
    ctx.tag(case["way"])
    timed = case["timed"]
    if not m.isInstantiated():
        ctx.check(False, "a parameter lost its value")
    vals = {p: float(m.parameterValue(p)) for p in m.parameter_str}
    ref0 = pref(m, vals)
    rng = random.Random(case["seed"])
    traces = []
    for t in walks(ref0, case["seed"], timed, case["n"]):
        if len(t) > 1 and all(t != x for x, _ in traces):
            traces.append([t, rng.randint(1, case["mult"])])
    if not traces:
        return
    try:
        if underflow(ref0, traces, timed) or em.step(ref0, traces, timed)[0] is None:
            ctx.tag("not compared")
            return
    except em.Degenerate:
        ctx.tag("degenerate, not compared")
        return
    fixed = [p for i, p in enumerate(sorted(vals)) if case["fix"] == i]
    c = dict(case, traces=traces, fixed=fixed)
    first = prev = em.loglik(ref0, traces, timed)
    for it in case["its"]:
        m = shared_model(case, ctx)
        expr = [[m.transitionExpression(s, t) for t in range(ref0.n)] for s in range(ref0.n)]
        h = fit(c, m, it)
        new = {p: float(h.parameterValue(p)) for p in h.parameter_str}
        ctx.check(set(new) == set(vals), "parameters changed")
        for p in fixed:
            ctx.check(new[p] == vals[p], "fixed parameter %s changed to %r" % (p, new[p]))
        got = pref(h, new)
        ctx.check(got.labels == ref0.labels and got.init == ref0.init, "labels or initial state changed")
        for s in range(got.n):
            for t in range(got.n):
                ctx.check(got.P[s].get(t, 0.0) >= 0.0, "negative rate %d -> %d" % (s, t), got.P[s])
                same_up_to_constants(ctx, h.transitionExpression(s, t), text(expr[s][t]), case["update_constant"],
                                     "rate %d -> %d" % (s, t))
        if underflow(got, traces, timed):
            ctx.tag("underflow")
            return
        ll = em.loglik(got, traces, timed)
        ctx.check(ll >= prev - 1e-7 * (1 + abs(prev)), "after %d iterations the loglikelihood is %r, it was %r" % (it, ll, prev))
        prev = ll
    if case["update_constant"] and case["way"] != "ctmcs":
        ctx.tag("constants learned")
    ctx.nontrivial(prev > first + 1e-6)


SUBS = [
    Sub("vanishing", gen_vanish, run_vanish, 500, 7000,
        "PCTMCs in which some transitions, and so some parameters, are not used by the traces, over 2-4 iterations: as in fit; "
        "non-trivial: a parameter had the value 0 before the last iteration"),
    Sub("shared_constants", gen_shared, run_shared, 500, 7000,
        "the same on compositions of 2-3 PCTMCs or 2 CTMCs and on models loaded from Prism files, where rates share their "
        "constants: monotone likelihood, what may change; non-trivial: the likelihood increased"),
    Sub("bounds", gen_bounds, run_bounds, 400, 4000,
        "fit on PCTMCs with parameters without value, min_val and max_val: starting values, and the learning from them when "
        "the bounds are equal; non-trivial: both bounds"),
    Sub("fit", gen_case, run, 1200, 18000,
        "random PCTMC with monomial rates, timed or not, fixed parameters, update_constant on or off, 1-5 iterations: "
        "monotone likelihood, what may change, closed-form estimates; non-trivial: the likelihood increased"),
    Sub("one_parameter_per_rate", lambda r: gen_case(r, one_param), run, 700, 10000,
        "the same, each rate a constant times a power of one parameter"),
    Sub("parameters", gen_params, run_params, 700, 10000,
        "fit_parameters and fit_nonInstantiatedParameters on the same models; non-trivial: the likelihood increased"),
]
