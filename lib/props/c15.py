"""C15: learning depends only on the multiset of traces, and reports the truth."""
import contextlib
import copy
import io
import math
import time
import gen
import em
import emcheck
from build import Sub, build_any, mkset, set_type, copies, numbers, same, snapshot
from ref import Ref, underflow
from shard import Violation
from props import c12, c14
import jajapy as ja
from jajapy.with_stormpy import loadPrism, stormpyModeltoJajapy

KINDS = ["MC", "HMM", "MDP", "CTMC", "CTMC", "GOHMM", "PCTMC", "PCTMC"]
LOAD = dict(MC=ja.loadMC, MDP=ja.loadMDP, CTMC=ja.loadCTMC, PCTMC=ja.loadPCTMC, HMM=ja.loadHMM, GOHMM=ja.loadGoHMM)


def gen_case(r, kinds=KINDS, maxit=3):
    k = r.pick(kinds)
    if k == "PCTMC":
        c = c14.gen_case(r, fixed=False)
        c["it"] = r.int(1, maxit)
    else:
        c = emcheck.gen_case(r, k, timed=k == "CTMC" and r.chance(1, 2), maxit=maxit, lo=2, hi=4, big=5)
        c.pop("aslist", None)
    for t in c["traces"]:
        t[1] = min(t[1], 20)    # the traces are also given as copies
    return c


def reference(case, it):
    """None when the reference cannot follow the learning (underflow...)"""
    ref = Ref(case["model"])
    try:
        if underflow(ref, case["traces"], case["timed"]):
            return None
        cur = ref
        for _ in range(it if case["model"]["kind"] != "PCTMC" else 1):
            cur, _ = em.step(cur, case["traces"], case["timed"], set(), "old")
            if cur is None:
                return None
    except em.Degenerate:
        return None
    return ref


def fit(case, s, **kw):
    kw = dict(dict(epsilon=-1e9, stormpy_output=False, verbose=0), **kw)
    if case["model"]["kind"] == "PCTMC":
        kw["update_constant"] = case["update_constant"]
    model = build_any(case)
    printed = io.StringIO()
    with contextlib.redirect_stdout(printed):
        res = ja.BW().fit(s, initial_model=model, **kw)
    if kw["verbose"] == 0 and printed.getvalue():
        raise Violation("verbose=0 prints " + printed.getvalue()[:200])
    return res


# ------------------------------------------------------------------ order, copies, processes
def gen_order(r):
    c = gen_case(r)
    c["perm"] = r.shuffle(range(len(c["traces"])))
    c["processes"] = r.pick([1, 2, 3, 4, 9, 0])
    return c


def run_order(case, ctx):
    spec, timed, it = case["model"], case["timed"], case["it"]
    if reference(case, it) is None:
        ctx.tag("not compared")
        return
    t = set_type(spec, timed)
    want = numbers(fit(case, mkset(case["traces"], t), max_it=it))
    ctx.tag(spec["kind"] + (" timed" if timed else ""))
    ctx.nontrivial(len(case["traces"]) > 1 and want != numbers(build_any(case)))
    perm = [case["traces"][i] for i in case["perm"]]
    big = [[list(x) for x, m in perm for _ in range(m)], [1] * sum(m for _, m in perm)]
    tries = [("other order", mkset(perm, t)), ("copies in a Set", ja.Set(copies(perm), t=t)),
             ("copies with multiplicity 1", ja.Set(big[0], big[1], t))]
    # the type of a list of MDP traces is that of the initial model, when they start with 'init'
    if spec["kind"] != "MDP" or all(tr[0] == "init" for tr, _ in perm):
        tries.append(("list with copies", copies(perm)))
    for name, s in tries:
        same(ctx, numbers(fit(case, s, max_it=it)), want, name, rel=1e-6, abs_=1e-9)
    same(ctx, numbers(fit(case, mkset(case["traces"], t), max_it=it, processes=case["processes"])), want,
         "processes=%d" % case["processes"], rel=1e-6, abs_=1e-9)
    # doubling every multiplicity changes nothing
    same(ctx, numbers(fit(case, mkset([[x, 2 * m] for x, m in perm], t), max_it=it)), want, "every trace twice",
         rel=1e-6, abs_=1e-9)


# ------------------------------------------------------------------ when it stops, what it reports
def gen_stop(r):
    c = gen_case(r, maxit=1)
    c["max_it"] = r.pick([1, 2, 3, 4, 5, 6, None])
    c["eps"] = r.pick([None, 0.01, 0.1, 1.0, 0.0001, -1.0])
    c["between"] = r.int(0, 4)
    c["verbose"] = r.pick([0, 0, 0, 1, 2, 3])
    return c


MAXK = 6


def run_stop(case, ctx):
    spec, timed = case["model"], case["timed"]
    ref = reference(case, MAXK)
    if ref is None:
        ctx.tag("not compared")
        return
    t = set_type(spec, timed)

    def mk():
        return mkset(case["traces"], t)

    # the hypotheses after 0, 1, 2... iterations and their likelihoods
    hyp, lls = [build_any(case)], [em.loglik(ref, case["traces"], timed)]
    for k in range(1, MAXK + 1):
        h, info = fit(case, mk(), max_it=k, return_data=True)
        ctx.check(info["learning_rounds"] == k, "max_it=%d, epsilon=-1e9: %r rounds" % (k, info["learning_rounds"]))
        if spec["kind"] == "PCTMC":
            _, got, _ = c14.read(h, spec)
        else:
            got = emcheck.read(h, spec, case.get("order"))
        if spec["kind"] == "GOHMM" and min(x[1] for row in got.out for x in row) < 1e-3:
            break
        if underflow(got, case["traces"], timed):
            break
        ctx.close(float(info["training_set_loglikelihood"]), lls[-1], "training_set_loglikelihood after %d rounds" % k,
                  rel=1e-7, abs_=1e-8)
        hyp.append(h)
        lls.append(em.loglik(got, case["traces"], timed))
    K = len(hyp) - 1
    if K < 1:
        return
    deltas = [lls[k - 1] - lls[k - 2] for k in range(2, K + 1)]   # improvement seen by round k
    eps = case["eps"]
    if eps is None and deltas:
        i = case["between"] % len(deltas)
        eps = deltas[i] * 1.5 + 1e-9 if deltas[i] > 0 else 0.01
    eps = 0.01 if eps is None else eps
    if any(abs(d - eps) < 1e-6 * (1 + abs(eps)) for d in deltas):
        ctx.tag("tie")
        return
    stop = next((k for k in range(2, K + 1) if deltas[k - 2] < eps), None)
    max_it = case["max_it"]
    want = min(x for x in (stop, max_it, 10 ** 9) if x is not None)
    if want > K:
        ctx.tag("would be too long")
        return
    ctx.tag("stops by epsilon" if want == stop else "stops by max_it")
    ctx.nontrivial(want > 1)
    kw = {} if max_it is None else dict(max_it=max_it)
    f = ctx.path("learned.txt")
    start = time.perf_counter()
    h, info = fit(case, mk(), epsilon=eps, return_data=True, output_file=f, **dict(kw, verbose=case["verbose"]))
    same(ctx, numbers(LOAD[spec["kind"]](f)), numbers(h), "output_file after %d rounds" % want, rel=1e-12, abs_=0)
    ctx.check(info["learning_rounds"] == want, "epsilon=%r, max_it=%r: %r rounds instead of %d (improvements %r)" %
              (eps, max_it, info["learning_rounds"], want, deltas))
    ctx.check(0 <= info["learning_time"] <= time.perf_counter() - start, "learning time", info["learning_time"])
    ctx.close(float(info["training_set_loglikelihood"]), lls[want - 1], "training_set_loglikelihood", rel=1e-7, abs_=1e-8)
    same(ctx, numbers(h), numbers(hyp[want]), "model after %d rounds" % want, rel=1e-6, abs_=1e-9)


# ------------------------------------------------------------------ outputs
def gen_output(r):
    c = gen_case(r, kinds=KINDS[:-1], maxit=2)
    c["how"] = r.pick(["file", "file", "prism", "storm"])
    return c


def run_output(case, ctx):
    spec, timed, it, how = case["model"], case["timed"], case["it"], case["how"]
    if reference(case, it) is None:
        ctx.tag("not compared")
        return
    t = set_type(spec, timed)
    h = fit(case, mkset(case["traces"], t), max_it=it)
    ctx.tag("%s %s" % (spec["kind"], how))
    ctx.nontrivial()
    if how == "file":
        f = ctx.path("learned.txt")
        h = fit(case, mkset(case["traces"], t), max_it=it, output_file=f)
        got, want = numbers(LOAD[spec["kind"]](f)), numbers(h)
        same(ctx, got, want, "output_file", rel=1e-15, abs_=0)
        return
    if spec["kind"] in ("HMM", "GOHMM", "PCTMC"):
        return
    if how == "prism":
        f = ctx.path("learned.sm")
        h = fit(case, mkset(case["traces"], t), max_it=it, output_file_prism=f)
        got = loadPrism(f)
    else:
        x = fit(case, mkset(case["traces"], t), max_it=it, stormpy_output=True)
        ctx.check("storm" in type(x).__module__, "stormpy_output: returned %s" % type(x))
        got = stormpyModeltoJajapy(x)
    got.name = h.name
    s = mkset([[x, m] for x, m in case["traces"]], t)
    ctx.check(type(got) is type(h), "type of the model", type(got))
    for tr in case["traces"]:
        one = mkset([tr], t)
        a, b = got.logLikelihood(one), h.logLikelihood(one)
        ctx.close(float(a), float(b), "likelihood of %r" % (tr[0],), rel=1e-6, abs_=1e-9)


# ------------------------------------------------------------------ initial model given by Storm, incompatible sets
def gen_storm(r):
    return gen_case(r, kinds=["MC", "MDP", "CTMC"], maxit=3)


def run_storm(case, ctx):
    """fitting a stormpy model is fitting its translation"""
    if reference(case, case["it"]) is None:
        ctx.tag("not compared")
        return
    from jajapy.with_stormpy import jajapyModeltoStormpy
    t = set_type(case["model"], case["timed"])
    kw = dict(epsilon=-1e9, stormpy_output=False, verbose=0, max_it=case["it"])
    sp = jajapyModeltoStormpy(build_any(case))
    a = numbers(ja.BW().fit(mkset(case["traces"], t), initial_model=stormpyModeltoJajapy(sp), **kw))
    b = numbers(ja.BW().fit(mkset(case["traces"], t), initial_model=sp, **kw))
    ctx.tag(case["model"]["kind"])
    ctx.nontrivial(a != numbers(stormpyModeltoJajapy(sp)))
    same(ctx, b, a, "initial model given by Storm", rel=1e-9)


def gen_bad(r):
    c = gen_case(r, maxit=2)
    c["as"] = r.pick(["labels", "actions", "timed", "vectors", "unknown"])
    return c


def run_bad(case, ctx):
    """sets which are not made of traces of this kind of model: no model may be returned"""
    spec, how = case["model"], case["as"]
    k = spec["kind"]
    own = {"MDP": ["actions"], "CTMC": ["labels", "timed"], "PCTMC": ["labels", "timed"], "GOHMM": ["vectors"]}.get(k, ["labels"])
    if how in own:
        return
    labs = spec.get("labels") or spec.get("alphabet") or ["a", "b"]
    n = len(labs)
    head = [] if k in ("HMM", "GOHMM") else ["init"]
    if how == "labels":
        s = ja.Set([head + [labs[i % n], labs[0], labs[-1]] for i in range(2)], [1, 2], 0)
    elif how == "actions":
        s = ja.Set([["init", "act_1", labs[0], "act_2", labs[i % n]] for i in range(2)], [1, 2], 1)
    elif how == "timed":
        s = ja.Set([["init", 0.3, labs[0], 1.5, labs[i % n]] for i in range(2)], [1, 2], 4)
    elif how == "vectors":
        s = ja.Set([[[0.25] * 2, [1.5] * 2]], [1], 3)
    elif k == "GOHMM":
        return
    else:
        x = {"MDP": ["init", spec.get("actions", [""])[0], "no such label"]}.get(k, head + ["no such label", labs[0]])
        s = ja.Set([x], [3], 1 if k == "MDP" else 0)
    if k == "GOHMM" and how == "labels":
        s = ja.Set([["u", "v"]], [1], 0)
    ctx.tag("%s %s" % (k, how))
    ctx.nontrivial()
    ctx.raises(Exception, lambda: fit(case, s, max_it=case["it"]), "fit of a %s on %s" % (k, how))


# ------------------------------------------------------------------ one object, several fits
def add_fixed(r, c):
    """rates or parameters which the learning may not change"""
    k = c["model"]["kind"]
    if k == "CTMC":
        c12.add_fixed(r, c)
    elif k == "PCTMC":
        c["fixed"] = [p for p in c["model"]["params"] if r.chance(1, 2)]


def gen_reuse(r):
    c = gen_case(r, maxit=2)
    c["how"] = r.pick(["fit", "fit", "parameters"])
    c["before"] = []
    if r.chance(1, 4):
        add_fixed(r, c)
    for _ in range(r.int(1, 3)):
        if r.chance(1, 3):               # the same model, other traces and options
            b = dict(copy.deepcopy(c), traces=copy.deepcopy(r.sample(c["traces"], r.int(1, len(c["traces"])))), it=r.int(1, 2))
            b.pop("before")
            b.pop("fixed", None)
        else:
            b = gen_case(r, maxit=2)
        if r.chance(1, 2):
            add_fixed(r, b)
        b["how"] = r.pick(["fit", "fit", "parameters", "wrong"])
        c["before"].append(b)
    return c


def fit_on(bw, case):
    """what the object `bw` learns from this case"""
    spec, t = case["model"], set_type(case["model"], case["timed"])
    s = mkset(case["traces"], t)
    if spec["kind"] == "PCTMC" and case["how"] == "parameters":
        m = build_any(case)
        return dict(bw.fit_parameters(s, m, list(m.parameter_str), epsilon=-1e9, max_it=case["it"], verbose=False))
    kw = dict(epsilon=-1e9, stormpy_output=False, verbose=0, max_it=case["it"])
    if spec["kind"] == "PCTMC":
        kw["update_constant"] = case["update_constant"]
    if case.get("fixed"):
        kw["fixed_parameters"] = list(case["fixed"]) if spec["kind"] == "PCTMC" else emcheck.fixed_matrix(case)
    if case["how"] == "wrong":
        s = ja.Set([[[0.5], [1.5]]], [1], 3) if spec["kind"] != "GOHMM" else ja.Set([["u", "v"]], [1], 0)
    return numbers(bw.fit(s, initial_model=build_any(case), **kw))


def run_reuse(case, ctx):
    """what a BW object learned before changes nothing"""
    for c in [case] + case["before"]:
        if c["how"] != "wrong" and reference(c, c["it"]) is None:
            ctx.tag("not compared")
            return
    want = fit_on(ja.BW(), case)
    bw = ja.BW()
    for b in case["before"]:
        try:
            fit_on(bw, b)
        except Exception:
            if b["how"] != "wrong":
                raise
    names = [b["model"]["kind"] + (" timed" if b["timed"] else "") + " " + b["how"] for b in case["before"]]
    me = case["model"]["kind"] + (" timed" if case["timed"] else "")
    ctx.tag("%s after %s" % (case["model"]["kind"], case["before"][-1]["model"]["kind"]))
    ctx.nontrivial(any(n.rsplit(" ", 1)[0] != me for n in names))
    same(ctx, fit_on(bw, case), want, "%s learned by an object which learned %s" % (me, ", ".join(names)), rel=1e-12, abs_=0)


def gen_real(r):
    c = gen_case(r, kinds=["MC", "HMM", "MDP", "CTMC", "GOHMM"])
    c["opts"] = dict(max_it=c["it"], epsilon=-1e9, processes=r.pick([None, 2, 3]))
    return c


def run_real(case, ctx):
    import realpool
    if reference(case, case["it"]) is None:
        return
    spec = case["model"]
    want = numbers(fit(case, mkset(case["traces"], set_type(spec, case["timed"])), max_it=case["it"], processes=1))
    got = realpool.call("fit", case)
    got.pop("name")
    ctx.nontrivial(len(case["traces"]) > 1)
    same(ctx, got, want, "real processes", rel=1e-6, abs_=1e-9)


SUBS = [
    Sub("order_copies_processes", gen_order, run_order, 1100, 16000,
        "random initial model of every kind and training set, 1-3 iterations: permuted, repeated, in a list or a Set, "
        "number of processes; non-trivial: several distinct traces and a model which changes"),
    Sub("stopping", gen_stop, run_stop, 500, 8000,
        "max_it and epsilon (placed between two improvements): number of rounds, returned model, reported likelihood "
        "against the reference; non-trivial: several rounds"),
    Sub("output", gen_output, run_output, 500, 6000,
        "output_file, output_file_prism and stormpy_output against the returned model"),
    Sub("storm_initial", gen_storm, run_storm, 250, 4000,
        "initial model given as a stormpy model; non-trivial: the model changes"),
    Sub("incompatible", gen_bad, run_bad, 400, 4000,
        "sets of another kind of traces, or with unknown labels: refused; non-trivial: all which are compared"),
    Sub("reuse", gen_reuse, run_reuse, 400, 6000,
        "one BW object used for 1-3 fits, of other kinds of models and traces or refused, before the one compared with "
        "that of a new object; non-trivial: another kind of model or of traces before"),
    Sub("real_processes", gen_real, run_real, 6, 40, "learning with real process pools", mode="multi"),
]
