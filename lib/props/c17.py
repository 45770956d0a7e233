"""C17: saving and loading a model gives the same model back."""
import contextlib
import io
import numpy as np
import gen
from build import Sub, build, direct, snapshot, mkset, set_type, same
from emcheck import gen_traces
from ref import Ref, underflow, ev
from props.c19 import load as load_prism
from props.c21 import module, gen_ctmcs, gen_pctmcs
import jajapy as ja

LOAD = dict(MC=ja.loadMC, MDP=ja.loadMDP, CTMC=ja.loadCTMC, PCTMC=ja.loadPCTMC, HMM=ja.loadHMM, GOHMM=ja.loadGoHMM)
NASTY = ["a", "b c", "it's", 'say "hi"', "x,y", "back\\slash", "tab\tx", "new\nline", "été", "[1]", "", "None", "1.5", "-",
         "a'b\"c", "{}", "日本", "#x", "%s", "(1, 2)", " lead", "trail "]
NAMES = ["m", "my model", "it's", "a,b", "été", "", "MC", "[0]", "x" * 70, " padded ", "1", "'q'"]


def nasty_text(r):
    return "".join(chr(r.int(32, 126)) if r.chance(7, 8) else r.pick(["é", "\t", "λ", "\\n"]) for _ in range(r.int(0, 12)))


def nasty_float(r, top=1.0):
    """in (0, top)"""
    c = r.int(0, 5)
    if c == 0:
        return max(5e-324, r.pick([5e-324, 1e-300, 2.2250738585072014e-308, 1e-17, 1.1e-16, 0.1 + 0.2, 1 / 3, 1e-5]) * top)
    return (r.int(1, 2 ** 52 - 1) / 2 ** 52) * top


def nasty_row(r, n, allow=None):
    """a row which sums to 1 up to a few bits"""
    idx = r.sample(range(n), r.int(1, n))
    res = [0.0] * n
    for s in idx[1:]:
        res[s] = nasty_float(r, 1.0 / len(idx))
    res[idx[0]] = 1.0 - sum(res)
    return res


def gen_case(r, kinds=("MC", "MDP", "CTMC", "PCTMC", "PCTMC", "HMM", "GOHMM")):
    k = r.pick(kinds)
    kw = dict(instantiated=r.chance(1, 2)) if k == "PCTMC" else {}
    m = gen.ANY[k](r, **kw)
    n = m["n"]
    if r.chance(1, 2):
        if k in ("MC", "HMM", "GOHMM"):
            for s in range(n):
                if r.chance(1, 2):
                    m["P"][s] = nasty_row(r, n)
        elif k == "MDP":
            for s in range(n):
                m["P"][s] = [x if x is None or r.chance(1, 2) else nasty_row(r, n) for x in m["P"][s]]
        elif k == "CTMC":
            m["R"] = [[x and (x if r.chance(1, 2) else max(5e-324, nasty_float(r) * r.pick([1.0, 1e3, 1e-3, 1e100]))) for x in row] for row in m["R"]]
        else:
            for s in range(n):
                for t in range(n):
                    if m["T"][s][t] is not None and r.chance(1, 4):
                        m["T"][s][t] = repr(nasty_float(r))
            m["values"] = {p: nasty_float(r, 10.0) for p in m["values"]}
        if k == "HMM":
            m["E"] = [x if r.chance(1, 2) else nasty_row(r, len(x)) for x in m["E"]]
            for o in range(len(m["alphabet"])):
                if all(row[o] == 0 for row in m["E"]):
                    m["E"][0] = [1.0 / len(m["alphabet"])] * len(m["alphabet"])
        if k == "GOHMM":
            m["out"] = [[[(-1) ** r.int(0, 1) * nasty_float(r, 100.0), nasty_float(r, 10.0) + 1e-3] for _ in row] for row in m["out"]]
    if r.chance(1, 2):
        pool = r.shuffle(NASTY)
        if r.chance(1, 2):
            pool = list(dict.fromkeys(nasty_text(r) for _ in NASTY))
            pool += [x for x in NASTY if x not in pool]
        if gen.LARGE[0]:
            pool += ["%s %d" % (x, i) for i in range(3) for x in pool]
        if k == "HMM":
            m["alphabet"] = pool[:len(m["alphabet"])]
        elif k != "GOHMM":
            mp = dict(zip(sorted(set(m["labels"])), pool))
            m["labels"] = [mp[x] for x in m["labels"]]
            if k == "MDP":
                m["actions"] = r.shuffle(NASTY)[:len(m["actions"])]
    c = dict(model=m, name=(r.pick(NAMES) if r.chance(1, 2) else nasty_text(r)) if r.chance(1, 2) else None, values={p: gen.pvalue(r) for p in m.get("params", [])},
             ext=r.pick([".txt", "", ".model"]), traces=gen.traces(r, m, nmax=2, lmax=5) if k != "PCTMC" else [])
    if k in ("MC", "MDP", "CTMC") and r.chance(1, 3):
        c["order"] = r.shuffle(range(n + 1))
    return c


def load(case, f):
    return LOAD[case["model"]["kind"]](f)


def run(case, ctx):
    spec = case["model"]
    k = spec["kind"]
    if case.get("order"):
        m = direct(spec, case["order"])
        if case["name"] is not None:
            m.name = case["name"]
    else:
        m = build(spec, name=case["name"])
    f, g = ctx.path("saved" + case["ext"]), ctx.path("again.txt")
    before = snapshot(m)
    if case["name"] is not None:
        ctx.check(before["name"] == case["name"], "name of the model", before["name"])
    m.save(f)
    ctx.check(snapshot(m) == before, "saving changed the model")
    got = load(case, f)
    ctx.tag(k)
    ctx.nontrivial(spec["n"] > 1)
    after = snapshot(got)
    for x in before:
        ctx.check(after[x] == before[x], "%s after loading" % x, after[x], before[x])
    got.save(g)
    ctx.check(open(f, newline="").read() == open(g, newline="").read(), "saving the loaded model gives another file")
    ctx.check(snapshot(load(case, g)) == before, "after two saves")
    if case["traces"] and not underflow(Ref(spec), case["traces"]):
        s = mkset(case["traces"], set_type(spec))
        ctx.check(got.logLikelihood(s) == m.logLikelihood(s), "likelihood of the loaded model")
    if k == "PCTMC":
        n = m.nb_states
        for p in spec["params"]:
            ctx.check(got.isInstantiated(param=p) == (p in spec["values"]), "isInstantiated(%s)" % p)
        a, b = [x.instantiate(list(case["values"]), list(case["values"].values())) for x in (m, got)]
        ctx.check(a == b, "instantiate answers %r instead of %r" % (b, a))
        for s in range(n):
            for t in range(n):
                ctx.check(float(m.l(s, t, m.getLabel(s))) == float(got.l(s, t, m.getLabel(s))), "rate %d -> %d" % (s, t))


# ------------------------------------------------------------------ models coming from the rest of the library
WAYS = {"fit": ("MC", "MDP", "CTMC", "PCTMC", "PCTMC", "HMM", "GOHMM"), "toMC": ("CTMC",), "prism": ("MC", "MDP", "CTMC", "PCTMC"),
        "storm": ("MC", "MDP", "CTMC"), "instantiated": ("PCTMC",), "alergia": ("MC", "MDP"), "compose": ("CTMC", "PCTMC"),
        "random": tuple(gen.ANY)}


def gen_derived(r):
    way = r.pick(["fit", "fit", "fit", "toMC", "prism", "storm", "instantiated", "alergia", "compose", "compose", "random"])
    k = r.pick(WAYS[way])
    c = dict(way=way, kind=k, seed=r.int(0, 10 ** 6), it=r.int(1, 3), const=r.chance(1, 2), timed=False)
    if way == "compose":
        c["models"] = (gen_ctmcs(r, lo=2, hi=3, big=3) if k == "CTMC" else gen_pctmcs(r, r.pick([2, 2, 3])))["models"]
    elif way == "random":
        c["n"] = r.int(1, 6)
    else:
        m = c["model"] = gen.ANY[k](r, lo=1, hi=4, big=6, **(dict(prism=True, exprs=round_expr, general=False) if k == "PCTMC" else {}))
        c["timed"] = way == "fit" and k in ("CTMC", "PCTMC") and r.chance(1, 2)
        if way in ("fit", "alergia"):
            c["traces"] = gen_traces(r, m, c["timed"], nmax=4, lmax=6, impossible=way == "fit")
    return c


def round_expr(r, params, general):
    return gen.const(r) if r.chance(1, 3) else gen.expr(r, params, False)


def derive(c, ctx):
    k, way = c["kind"], c["way"]
    if way == "random":
        n, sd = c["n"], c["seed"]
        lab = gen.LABELS[:min(n, 3)]
        if k == "MC":
            return ja.MC_random(n, lab, sseed=sd)
        if k == "MDP":
            return ja.MDP_random(n, lab, ["x", "y"], sseed=sd)
        if k == "CTMC":
            return ja.CTMC_random(n, lab, 1, 3, sseed=sd)
        if k == "HMM":
            return ja.HMM_random(n, ["a", "b"], sseed=sd)
        if k == "GOHMM":
            return ja.GoHMM_random(n, 2, sseed=sd)
        return None
    if way == "compose":
        ms = [module(m) for m in c["models"]]
        return ja.synchronousCompositionCTMCs(*ms) if k == "CTMC" else ja.synchronousCompositionPCTMCs(ms)
    m = build(c["model"])
    if way == "fit":
        if underflow(Ref(c["model"]), c["traces"], c["timed"]):
            return None
        kw = dict(update_constant=c["const"]) if k == "PCTMC" else {}
        try:
            return ja.BW().fit(mkset(c["traces"], set_type(c["model"], c["timed"])), initial_model=m, max_it=c["it"], epsilon=0.0,
                               stormpy_output=False, verbose=0, **kw)
        except ValueError:      # no trace is possible
            return None
    if way == "alergia":
        return (ja.Alergia() if k == "MC" else ja.IOAlergia()).fit(mkset(c["traces"], set_type(c["model"])), 0.5, stormpy_output=False)
    if way == "toMC":
        return m.toMC()
    if way == "instantiated":
        return ja.PCTMCtoCTMC(m)
    if way == "storm":
        return ja.stormpyModeltoJajapy(ja.jajapyModeltoStormpy(m))
    f = ctx.path("m.prism")
    m.savePrism(f)
    return load_prism(f)


def same_values(ctx, params, want, got):
    for j in range(3):
        v = {p: 0.3 + 0.7 * j + 0.43 * i for i, p in enumerate(params)}
        for x, y in zip(sum(want, []), sum(got, [])):
            if x != y:
                ctx.close(ev(y, v), ev(x, v), "rate %s after loading, it was %s" % (y, x), rel=1e-14)


def run_derived(c, ctx):
    with contextlib.redirect_stdout(io.StringIO()):
        m = derive(c, ctx)
        if m is None:
            ctx.tag("no model")
            return
        k = type(m).__name__
        ctx.tag("%s, %s" % (c["way"], k))
        f, g = ctx.path("saved.txt"), ctx.path("again.txt")
        before = snapshot(m)
        m.save(f)
        ctx.check(snapshot(m) == before, "saving changed the model")
        got = LOAD["GOHMM" if k == "GoHMM" else k](f)
        ctx.check(type(got) is type(m), "a %s was loaded as a %s" % (k, type(got).__name__))
        after = snapshot(got)
        # the learned models may have extended precision, which is not kept by the loaded ones
        exact = not any(getattr(m, x, np.zeros(1)).dtype.itemsize > 8 for x in ("matrix", "initial_state", "output") if k != "PCTMC")
        ctx.tag("double precision" if exact else "extended precision")
        if k == "PCTMC" and after["X"] != before["X"]:      # sympy distributes 1.0*(p + q) while it reads it
            ctx.tag("rates written differently")
            same_values(ctx, m.parameter_str, before.pop("X"), after["X"])
            exact = False
        if exact:
            for x in before:
                ctx.check(after[x] == before[x], "%s after loading" % x, after[x], before[x])
        else:
            same(ctx, {x: after[x] for x in before}, before, "loaded model", rel=4e-16, abs_=0.0)
        got.save(g)
        ctx.check(not exact or open(f, newline="").read() == open(g, newline="").read(), "saving the loaded model gives another file")
        again = LOAD["GOHMM" if k == "GoHMM" else k](g)
        ctx.check(snapshot(again) == after, "after two saves")
        ctx.nontrivial(m.nb_states > 1)
        if k == "PCTMC" and m.isInstantiated() and exact:
            for s in range(m.nb_states):
                for t in range(m.nb_states):
                    ctx.check(float(m.l(s, t, m.getLabel(s))) == float(got.l(s, t, m.getLabel(s))), "rate %d -> %d" % (s, t))
        if "traces" in c and k != "PCTMC" and exact:
            s = mkset(c["traces"], set_type(c["model"], c["timed"]))
            with np.errstate(all="ignore"):
                a, b = float(m.logLikelihood(s)), float(got.logLikelihood(s))
            ctx.check(a == b or (a != a and b != b), "likelihood of the loaded model: %r instead of %r" % (b, a))


def gen_wrong(r):
    m = gen.ANY[r.pick(list(gen.ANY))](r, hi=3, big=3)
    return dict(model=m, other=r.pick([k for k in gen.ANY if k != m["kind"]]))


def run_wrong(case, ctx):
    f = ctx.path("wrong.txt")
    build(case["model"]).save(f)
    ctx.nontrivial()
    ctx.tag("%s as %s" % (case["model"]["kind"], case["other"]))
    ctx.raises(Exception, lambda: LOAD[case["other"]](f), "a %s loaded as a %s" % (case["model"]["kind"], case["other"]))


SUBS = [
    Sub("roundtrip", gen_case, run, 9000, 90000,
        "random models of every kind with arbitrary doubles, labels, actions and names; exact comparison of every answer, "
        "two saves, likelihoods, instantiations; non-trivial: several states"),
    Sub("derived", gen_derived, run_derived, 1500, 20000,
        "the same exact comparison for models learned (BW, Alergia, IOAlergia), composed, converted (toMC, PCTMCtoCTMC, Storm), "
        "loaded from Prism files or random; non-trivial: several states"),
    Sub("wrong_kind", gen_wrong, run_wrong, 400, 2000, "a file saved by a model of another kind is refused"),
    Sub("enlarged", gen.enlarged(gen_case), run, 240, 2400, "roundtrip of models with 16-44 states (PCTMC 8-18, up to 324 expressions)"),
]
