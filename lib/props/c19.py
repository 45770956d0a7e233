"""C19: a Prism file written by savePrism describes the same model."""
import os
import random
import zlib
import gen
import em
from build import Sub, build, build_any, snapshot
from ref import Ref, underflow, ev, sy, text
from props.c16 import ref_of
from jajapy.with_stormpy import loadPrism
import jajapy as ja

KIND = dict(MC="MC", MDP="MDP", CTMC="CTMC", PCTMC="PCTMC")


def load(f):
    old = os.system
    os.system = lambda c: 0          # loadPrism clears the screen
    try:
        return loadPrism(f)
    finally:
        os.system = old


def tiny_row(r, n):
    """a row with a very small probability"""
    res = [0.0] * n
    i, j = r.sample(range(n), 2) if n > 1 else (0, 0)
    x = r.pick([1e-6, 1e-7, 1.25e-8, 3e-10])
    res[i] += 1.0 - x
    res[j] += x
    return res


def gen_case(r, kinds=("MC", "MDP", "MDP", "CTMC")):
    k = r.pick(kinds)
    m = gen.ANY[k](r, lo=1, hi=5, big=14)
    if k in ("MC", "MDP") and r.chance(1, 4):
        s = r.int(0, m["n"] - 1)
        if k == "MC":
            m["P"][s] = tiny_row(r, m["n"])
        else:
            m["P"][s] = [x and tiny_row(r, m["n"]) for x in m["P"][s]]
    if k == "CTMC" and r.chance(1, 4):
        s = r.int(0, m["n"] - 1)
        m["R"][s] = [x * r.pick([1.0, 1e-7, 1e-4, 1e5]) for x in m["R"][s]]
    c = dict(model=m, timed=False)
    c["traces"] = gen.traces(r, m, nmax=8, lmax=8)
    if k == "CTMC":
        c["timed_traces"] = gen.traces(r, m, nmax=6, lmax=7, timed=True)
    if r.chance(1, 3):
        c["order"] = r.shuffle(range(m["n"] + 1))
    return c


def walks(ref, seed, timed, n=6):
    """traces of a Ref"""
    rng = random.Random(seed)
    res = []
    for _ in range(n):
        s = rng.choice([i for i, x in enumerate(ref.init) if x > 0])
        tr = [ref.labels[s]]
        for _ in range(rng.randint(1, 7)):
            if ref.kind == "MDP":
                acts = [a for a in ref.P[s] if ref.P[s][a]]
                if not acts:
                    break
                a = rng.choice(sorted(acts))
                tr.append(a)
                succ = ref.P[s][a]
            else:
                succ = ref.P[s]
                if not succ and timed:
                    break
                succ = succ or {s: 1}
            if timed:
                tr.append(rng.choice([0.1, 0.5, 2.0]))
            s = rng.choice(sorted(succ))
            tr.append(ref.labels[s])
        res.append(tr)
    return res


def same_behaviour(ctx, got, want, case, rel=1e-7):
    """probabilities of the traces of the case, and of random traces of both; got, want: Refs"""
    seed = zlib.crc32(repr(case).encode())
    plain = [t for t, _ in case["traces"]] + walks(got, seed, False) + walks(want, seed, False)
    for t in plain:
        ctx.close(got.prob(t), want.prob(t), "probability of %r" % (t,), rel=rel, abs_=1e-250)
    if want.kind == "CTMC" or want.kind == "PCTMC":
        ts = [t for t, _ in case.get("timed_traces", [])] + walks(got, seed + 1, True) + walks(want, seed + 1, True)
        for t in ts:
            ctx.close(got.density(t), want.density(t), "density of %r" % (t,), rel=rel, abs_=1e-250)


def run(case, ctx):
    spec = case["model"]
    k = spec["kind"]
    m = build_any(case)
    want = Ref(spec)
    f = ctx.path("m.prism")
    before = snapshot(m)
    m.savePrism(f)
    ctx.check(snapshot(m) == before, "savePrism changed the model")
    got = load(f)
    ctx.tag(k)
    ctx.check(type(got).__name__ == k, "kind of the loaded model: %s" % type(got).__name__)
    ctx.nontrivial(spec["n"] > 1)
    ref = ref_of(got)
    if k == "MDP":
        for t in range(ref.n):
            ctx.check(any(ref.P[t][a] for a in ref.actions), "a state without action")
        ctx.check(set(got.getActions()) <= set(spec["actions"]), "names of the actions", got.getActions(), spec["actions"])
        # available actions after every state reached by one trace
        ctx.check(all(ref.P[ref.init.index(1.0)].get(a) for a in spec["actions"]), "actions of the initial state", ref.P)
    ctx.check(set(ref.labels) <= set(spec["labels"]) | {"init"}, "labels", ref.labels)
    same_behaviour(ctx, ref, want, case)
    if not any(underflow(want, [[t, 1]]) for t, _ in case["traces"]):
        s = ja.Set([t for t, _ in case["traces"]], [x for _, x in case["traces"]], 1 if k == "MDP" else 0)
        ctx.close(float(got.logLikelihood(s)), float(m.logLikelihood(s)), "logLikelihood", rel=1e-7)
    # exporting what was loaded
    g = ctx.path("again.prism")
    got.savePrism(g)
    same_behaviour(ctx, ref_of(load(g)), want, case)


def gen_pctmc(r):
    m = gen.pctmc(r, lo=1, hi=3, big=7, prism=True)
    mode = r.pick(["all", "none", "some"])
    if mode == "none":
        m["values"] = {}
    elif mode == "some":
        m["values"] = {p: v for p, v in m["values"].items() if r.chance(1, 2)}
    return dict(model=m, traces=[], tries=[{p: gen.pvalue(r) for p in m["params"]} for _ in range(3)])


def run_pctmc(case, ctx):
    spec = case["model"]
    m = build(spec)
    f = ctx.path("m.prism")
    before = snapshot(m)
    m.savePrism(f)
    ctx.check(snapshot(m) == before, "savePrism changed the model")
    got = load(f)
    rest = [p for p in spec["params"] if p not in spec["values"]]
    ctx.nontrivial(spec["n"] > 1)
    # parameters which occur in the rates of reachable states
    seen, todo = set(), [i for i, x in enumerate(gen.init_row(spec["init"], spec["n"])) if x > 0]
    while todo:
        s = todo.pop()
        if s not in seen:
            seen.add(s)
            todo += [t for t in range(spec["n"]) if spec["T"][s][t] is not None]
    exprs = [spec["T"][s][t] for s in seen for t in range(spec["n"]) if spec["T"][s][t] is not None]
    used = {p for p in rest if any(depends(e, p, spec["params"]) for e in exprs)}
    if not used:
        ctx.tag("instantiated")
        if type(got).__name__ == "PCTMC":
            ctx.check(got.isInstantiated(), "an instantiated PCTMC became non-instantiated")
        vals = dict({p: 1.0 for p in spec["params"]}, **spec["values"])
        ref = pref(got, {})
        same_behaviour(ctx, ref, ctmc(Ref(spec, vals)), case)
        return
    ctx.tag("%d free parameters" % len(used))
    ctx.check(type(got).__name__ == "PCTMC", "kind of the loaded model: %s" % type(got).__name__)
    ctx.check(set(got.parameter_str) == used, "parameters of the loaded model", got.parameter_str, used)
    for p in used:
        ctx.check(not got.isInstantiated(param=p), "%s has a value in the loaded model" % p)
    for vals in case["tries"]:
        v = dict(vals, **spec["values"])
        sub = {p: v[p] for p in used}
        ctx.check(got.instantiate(list(sub), list(sub.values())), "instantiate refuses", sub)
        same_behaviour(ctx, pref(got, sub), ctmc(Ref(spec, v)), case)


def ctmc(ref):
    ref.kind = "CTMC"
    return ref


def pref(h, vals):
    if type(h).__name__ == "CTMC":
        return ref_of(h)
    ref = Ref.__new__(Ref)
    ref.kind, ref.n = "CTMC", h.nb_states
    ref.init = [float(h.pi(s)) for s in range(ref.n)]
    ref.labels = [h.getLabel(s) for s in range(ref.n)]
    ref.P = []
    for s in range(ref.n):
        row = {}
        for t in range(ref.n):
            x = ev(text(h.transitionExpression(s, t)), vals)
            if x != 0:
                row[t] = x
        ref.P.append(row)
    return ref


def depends(e, p, params):
    """whether the value of e depends on p (p*q/p does not)"""
    import sympy
    return sympy.Symbol(p) in sympy.simplify(sympy.nsimplify(sy(e))).free_symbols


SUBS = [
    Sub("mc_mdp_ctmc", gen_case, run, 1200, 16000,
        "random MC, MDP (unavailable actions), CTMC (absorbing states) with up to 14 states, any position of the initial "
        "state: every trace has the same probability after savePrism, loadPrism (twice); non-trivial: several states"),
    Sub("pctmc", gen_pctmc, run_pctmc, 500, 6000,
        "random PCTMC, all, some or none of the parameters instantiated; non-trivial: several states"),
    Sub("enlarged", gen.enlarged(gen_case), run, 120, 1200, "mc_mdp_ctmc with 16-44 states"),
    Sub("enlarged_pctmc", gen.enlarged(gen_pctmc), run_pctmc, 24, 300, "pctmc with 8-18 states"),
]
