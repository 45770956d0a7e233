"""C32: models coming from one part of the library are ordinary models for all the others."""
import contextlib
import io
import random
import numpy as np
import em
import gen
from build import Sub, build, build_any, mkset
from ref import Ref, ev, text
from props.c06 import possible
from props.c14 import mono
from props.c17 import LOAD
from props.c19 import load as load_prism
from jajapy.with_stormpy import jajapyModeltoStormpy, stormpyModeltoJajapy
import jajapy as ja

OPS = {"MC": ["save", "storm", "prism", "fit", "fit", "alergia", "relabel", "scratch"],
       "MDP": ["save", "storm", "prism", "fit", "fit", "alergia", "relabel", "scratch"],
       "CTMC": ["save", "storm", "prism", "fit", "timed", "toMC", "compose", "relabel", "scratch"],
       "PCTMC": ["save", "prism", "fit", "timed", "toCTMC", "instantiate"],
       "HMM": ["save", "fit", "fit", "scratch"],
       "GoHMM": ["save", "fit", "fit", "scratch"]}
MAXOPS = 4


def start(r, k):
    kw = dict(lo=1, hi=4, big=6)
    if k == "MC":
        kw["dead"] = True
    if k == "PCTMC":
        kw = dict(lo=1, hi=3, big=3, prism=True, exprs=mono)
    return gen.ANY[k](r, **kw)


def gen_op(r, name):
    op = dict(op=name)
    if name in ("fit", "timed", "scratch", "alergia"):
        op["it"] = r.int(1, 2)
        op["nb"] = r.int(1, 5)
        op["len"] = r.int(1, 6)
    if name == "scratch":
        op["states"] = r.int(1, 3)
    if name == "alergia":
        op["alpha"] = r.pick([0.1, 0.5, 0.9])
    if name == "compose":
        n = r.int(1, 2)
        op["model"] = gen.ctmc(r, n=n, absorbing=False, pool=["u", "v"], scales=False)
        op["first"] = r.chance(1, 2)
    if name in ("instantiate",):
        op["values"] = [gen.pvalue(r) for _ in range(3)]
    return op


AFTER = {"toMC": "MC", "compose": "PCTMC", "toCTMC": "CTMC"}


def gen_case(r):
    k = r.pick(["MC", "MC", "MDP", "MDP", "CTMC", "CTMC", "CTMC", "PCTMC", "PCTMC", "HMM", "GOHMM"])
    c = dict(seed=r.int(0, 10 ** 6), model=start(r, k), ops=[])
    if k in ("MC", "MDP", "CTMC") and r.chance(1, 3):
        c["order"] = r.shuffle(range(c["model"]["n"] + 1))
    k = "GoHMM" if k == "GOHMM" else k
    for _ in range(r.int(2, MAXOPS)):
        op = gen_op(r, r.pick(OPS[k]))
        if op["op"] == "compose" and (c["model"]["n"] > 4 or any(x["op"] == "compose" for x in c["ops"])):
            op = dict(op="save")
        c["ops"].append(op)
        k = AFTER.get(op["op"], k)
    return c


# ------------------------------------------------------------------ the numbers of a model
def ref_of(m):
    k = type(m).__name__
    ref = Ref.__new__(Ref)
    ref.kind, ref.n = k.upper(), m.nb_states
    ref.spec = dict(kind=ref.kind)
    n = ref.n
    ref.init = [float(m.pi(s)) for s in range(n)]

    def row(f):
        return {t: x for t, x in ((t, float(f(t))) for t in range(n)) if x != 0.0}
    if k in ("MC", "MDP", "CTMC", "PCTMC"):
        ref.labels = [m.getLabel(s) for s in range(n)]
    if k == "MDP":
        ref.actions = list(m.getActions())
        ref.P = [{a: row(lambda t: m.a(s, t, a)) for a in ref.actions} for s in range(n)]
        ref.P = [{a: x for a, x in rows.items() if x} for rows in ref.P]
    elif k == "CTMC":
        ref.P = [row(lambda t: m.l(s, t, ref.labels[s])) for s in range(n)]
    elif k == "PCTMC":
        v = {p: float(m.parameterValue(p)) for p in m.parameter_str}
        ref.P = [row(lambda t: ev(text(m.transitionExpression(s, t)), v)) for s in range(n)]
    else:
        ref.P = [row(lambda t: m.a(s, t)) for s in range(n)]
    if k == "HMM":
        ref.E = [{o: float(m.b(s, o)) for o in m.getAlphabet() if m.b(s, o) != 0.0} for s in range(n)]
        ref.alphabet = list(m.getAlphabet())
    elif k == "GoHMM":
        ref.out = [[[float(x) for x in y] for y in z] for z in m.output]
        ref.spec["d"] = len(ref.out[0])
    return ref


def walk(rng, ref, length, timed=False, unit=1.0):
    """a trace along the positive transitions; shorter when there is none left"""
    k = ref.kind
    s = rng.choice([i for i, x in enumerate(ref.init) if x > 1e-6])

    def observe(s):
        if k == "HMM":
            return rng.choice(sorted(o for o, x in ref.E[s].items() if x > 1e-6))
        if k == "GOHMM":
            return [mu + sg * rng.uniform(-1.5, 1.5) for mu, sg in ref.out[s]]
        return ref.labels[s]
    tr = [observe(s)]
    for _ in range(length):
        if k == "MDP":
            acts = sorted(a for a in ref.P[s] if ref.P[s][a])
            if not acts:
                break
            a = rng.choice(acts)
            tr.append(a)
            succ = ref.P[s][a]
        else:
            succ = ref.P[s]
            if not succ:
                if timed or k == "MC":
                    break
                succ = {s: 1.0}
            if timed:
                tr.append(rng.choice([0.1, 0.5, 1.0, 2.0]) * unit)
        s = rng.choice(sorted(t for t, x in succ.items() if x > 1e-9 * max(succ.values())))
        tr.append(observe(s))
    return tr


def unit(ref):
    return 1.0 / max([ref.exit(s) for s in range(ref.n)] + [1e-3])


def traces(rng, ref, nb, length, timed=False):
    res = []
    u = unit(ref) if timed else 1.0
    for _ in range(nb):
        t = walk(rng, ref, rng.randint(1, length), timed, u)
        if len(t) >= (3 if timed else 1) and all(t != x for x, _ in res):
            res.append([t, rng.randint(1, 3)])
    return res


def kind_of_set(k, timed):
    return {"MC": 0, "HMM": 0, "MDP": 1, "GOHMM": 3}.get(k, 4 if timed else 0)


def fine(ref, trs, timed):
    """the probabilities are not so small (or densities so large) that rounding matters"""
    for t, _ in trs:
        p = ref.density(t) if timed else ref.prob(t)
        if not 1e-60 < p < 1e60:
            return False
    return True


# ------------------------------------------------------------------ what every model can do
def observe(ctx, m, want, rng, msg, renumbered=False):
    """m behaves as want: likelihoods, simulations; its accessors agree; returns its own Ref"""
    got = ref_of(m)
    k = got.kind
    ctx.check(isinstance(str(m), str) and len(str(m)) > 0, msg + ": str")
    if k in ("MC", "MDP", "CTMC", "PCTMC"):
        ctx.check(sorted(m.getAlphabet()) == sorted(set(got.labels)), msg + ": getAlphabet", m.getAlphabet(), got.labels)
    if not renumbered:
        for s in range(got.n):
            ctx.close(got.init[s], want.init[s], msg + ": initial probability of %d" % s, rel=1e-6, abs_=1e-9)
    for timed in ((False, True) if k in ("CTMC", "PCTMC") else (False,)):
        for a in (got, want):
            trs = traces(rng, a, 4, 5, timed)
            for t, _ in trs:
                x, y = (got.density(t), want.density(t)) if timed else (got.prob(t), want.prob(t))
                ctx.close(x, y, "%s: %s of %r" % (msg, "density" if timed else "probability", t), rel=1e-6, abs_=1e-12)
        trs = traces(rng, got, 5, 6, timed)
        if trs and fine(got, trs, timed) and fine(want, trs, timed):
            s = mkset(trs, kind_of_set(k, timed))
            ll = float(m.logLikelihood(s))
            ctx.close(ll, want.loglik(trs, timed)[0], msg + ": logLikelihood of %r" % (trs,), rel=1e-6, abs_=1e-6)
    # simulation
    for timed in ((False, True) if k in ("CTMC", "PCTMC") else (False,)):
        kw = dict(timed=True) if timed else {}
        args = [3, rng.randint(1, 5)]
        if k == "MDP":
            args.append(ja.UniformScheduler(list(m.getActions())))
        try:
            s = m.generateSet(*args, **kw)
        except Exception:
            dead = k == "MDP" and any(not x for x in got.P) or k == "MC" and any(not x for x in got.P)
            if not dead:
                raise
            ctx.tag("simulation refused")
            continue
        ctx.check(sum(s.times) == 3, msg + ": number of traces of generateSet", list(s.times))
        for t in s.sequences:
            why = possible(got, t, timed)
            ctx.check(why is None, "%s: generateSet: impossible trace, %s" % (msg, why), t)
    return got


def identifiers(ref):
    return all(x.replace("_", "a").isalnum() and not x[0].isdigit() for x in list(ref.labels) + getattr(ref, "actions", []))


def looped(ref):
    """MC: a state without leaving transition gets a loop in Storm and Prism"""
    want = em.clone(ref)
    for s in range(ref.n):
        if not want.P[s]:
            want.P[s] = {s: 1.0}
    return want


def as_ctmc(ref):
    res = em.clone(ref)
    res.kind = "CTMC"
    return res


class Stop(Exception):
    pass


def apply(op, m, ref, rng, ctx):
    """(new model, the Ref it should behave as or None)"""
    o = op["op"]
    k = ref.kind
    if o not in OPS[type(m).__name__]:      # Prism gives a CTMC for an instantiated PCTMC
        o = "save"
    if o == "save":
        f = ctx.path("m.txt")
        m.save(f)
        return LOAD[k](f), ref
    if o in ("storm", "prism"):
        if k == "MDP" and any(not x for x in ref.P) or not identifiers(ref):
            raise Stop("not representable")
        if o == "storm":
            return stormpyModeltoJajapy(jajapyModeltoStormpy(m)), ref
        want = looped(ref) if k == "MC" else ref
        f = ctx.path("m.prism")
        m.savePrism(f)
        return load_prism(f), want
    if o in ("fit", "timed"):
        timed = o == "timed"
        if k == "PCTMC" and any(m.transitionExpression(s, t).is_Add for s in range(ref.n) for t in range(ref.n)):
            raise Stop("sums of parameters")
        trs = traces(rng, ref, op["nb"], op["len"], timed)
        if not trs or not fine(ref, trs, timed):
            raise Stop("no trace")
        h = ja.BW().fit(mkset(trs, kind_of_set(k, timed)), initial_model=m, max_it=op["it"], epsilon=-1e9,
                        stormpy_output=False, verbose=0)
        want = [ref, ref]
        if k == "PCTMC":
            got = ref_of(h)
            if not fine(got, trs, timed):
                raise Stop("vanishing")
            a, b = (em.loglik(x, trs, timed) for x in (got, ref))
            if any(x < 1e-12 for row in got.P for x in row.values()):
                raise Stop("vanishing")
            ctx.check(a >= b - 1e-6 * max(1, abs(b)), "the likelihood of the training set decreased", b, a, trs)
            return h, got
        old = want[0]
        for i in range(op["it"]):
            old, new = want[0], em.step(want[0], trs, timed)[0]
            want = [new, em.step(old, trs, timed, sigma="new")[0] if i == 0 else new]
        if k == "GOHMM":
            got = ref_of(h)     # both estimators of the deviations are EM updates
            em.vanishing(got, trs)
            trs2 = [t for t, _ in trs]
            if op["it"] > 1 or not all(abs(got.prob(t) - want[0].prob(t)) <= 1e-6 * want[0].prob(t) for t in trs2):
                a, b = em.loglik(got, trs), em.loglik(ref, trs)
                ctx.check(a >= b - 1e-6 * max(1, abs(b)), "the likelihood of the training set decreased", b, a, trs)
                return h, got
        return h, want[0]
    if o == "scratch":
        trs = traces(rng, ref, op["nb"], op["len"])
        if not fine(ref, trs, False):
            raise Stop("no trace")
        if k not in ("HMM", "GOHMM") and len({x for t, _ in trs for x in (t[::2] if k == "MDP" else t)}) < 2:
            raise Stop("only 'init'")
        kw = dict(nb_states=op["states"]) if k in ("HMM", "GOHMM") else \
            dict(nb_states=op["states"] + len({x for t, _ in trs for x in (t[::2] if k == "MDP" else t)}))
        np.random.seed(rng.randint(0, 10 ** 6))
        if k == "CTMC":
            trs = traces(rng, ref, op["nb"], op["len"], True)
            if not trs or not fine(ref, trs, True) or len({x for t, _ in trs for x in t[::2]}) < 2:
                raise Stop("no trace")
            kw.update(nb_states=op["states"] + len({x for t, _ in trs for x in t[::2]}), min_exit_rate_time=1, max_exit_rate_time=4)
        try:
            h = ja.BW().fit(mkset(trs, kind_of_set(k, k == "CTMC")), max_it=op["it"], stormpy_output=False, verbose=0, **kw)
        except ValueError:      # the random model cannot produce any trace
            raise Stop("hopeless")
        got = ref_of(h)
        if k == "GOHMM":
            em.vanishing(got, trs)
        return h, got
    if o == "alergia":
        trs = traces(rng, ref, op["nb"] + 1, op["len"] + 1)
        if not trs or any(ref.labels[s] != "init" for s, p in enumerate(ref.init) if p > 0):
            raise Stop("no trace")
        h = (ja.Alergia() if k == "MC" else ja.IOAlergia()).fit(mkset(trs, kind_of_set(k, False)), op["alpha"],
                                                                stormpy_output=False)
        got = ref_of(h)
        for t, _ in trs:
            ctx.check(got.prob(t) > 0, "training trace impossible in the model learned by Alergia", t)
        return h, got
    if o == "relabel":
        mp = {x: x if x == "init" else "k" + x for x in set(ref.labels)}
        m.updateLabelling([mp[x] for x in ref.labels])
        want = em.clone(ref)
        want.labels = [mp[x] for x in ref.labels]
        return m, want
    if o == "toMC":
        want = em.clone(ref)
        want.kind = "MC"
        want.P = [ref.jump(s) for s in range(ref.n)]
        return m.toMC(), want
    if o == "toCTMC":
        return ja.PCTMCtoCTMC(m), as_ctmc(ref)
    if o in ("instantiate",):
        ps = [p for p in m.parameter_str][:len(op["values"])]
        vals = dict(zip(ps, op["values"]))
        ctx.check(m.instantiate(list(vals), list(vals.values())), "instantiate refuses %r" % vals)
        return m, instantiated(m, vals)
    if o == "compose":
        other = build(op["model"])
        if "," in "".join(ref.labels) or ref.n > 5:
            raise Stop("too big")
        a, b = (m, other) if op["first"] else (other, m)
        x, y = (ref, Ref(op["model"])) if op["first"] else (Ref(op["model"]), ref)
        if ref.labels.count("init") != 1:
            raise Stop("several initial states")
        return ja.synchronousCompositionCTMCs(a, b), interleaved(x, y)
    raise ValueError(o)


def instantiated(m, vals):
    v = {p: float(vals[p]) if p in vals else float(m.parameterValue(p)) for p in m.parameter_str}
    ref = ref_of(m)
    ref.P = [{t: x for t, x in ((t, ev(text(m.transitionExpression(s, t)), v)) for t in range(ref.n)) if x != 0}
             for s in range(ref.n)]
    return ref


def interleaved(a, b):
    """two CTMCs, each leaving its state 'init' at once"""
    ref = Ref.__new__(Ref)
    ref.kind, ref.spec = "CTMC", dict(kind="CTMC")
    ia, ib = a.labels.index("init"), b.labels.index("init")
    states = [(s, t) for s in range(a.n) if s != ia for t in range(b.n) if t != ib] + [(ia, ib)]
    pos = {x: i for i, x in enumerate(states)}
    ref.n = len(states)
    ref.labels = ["%s,%s" % (a.labels[s], b.labels[t]) for s, t in states[:-1]] + ["init"]
    ref.init = [0.0] * (ref.n - 1) + [1.0]
    ref.P = []
    for s, t in states[:-1]:
        row = {}
        for x, p in a.P[s].items():
            row[pos[(x, t)]] = row.get(pos[(x, t)], 0.0) + p
        for x, p in b.P[t].items():
            row[pos[(s, x)]] = row.get(pos[(s, x)], 0.0) + p
        ref.P.append(row)
    ref.P.append({pos[(x, y)]: p * q for x, p in a.P[ia].items() for y, q in b.P[ib].items()})
    return ref


def follow(ctx, m, ref, ops, seed, history):
    """ref: what m should behave as"""
    rng = random.Random(seed)
    msg = history[-1]
    try:
        ref = observe(ctx, m, ref, rng, msg)
        for op in ops:
            with contextlib.redirect_stdout(io.StringIO()):
                m, want = apply(op, m, ref, rng, ctx)
            history.append(op["op"])
            ctx.tag("%s -> %s" % (history[-2], history[-1]))
            if max([abs(x) for o in getattr(want, "out", []) for y in o for x in y] + [0]) > 1e100:
                raise Stop("overflow")
            ctx.check(m.nb_states == want.n or op["op"] in ("compose", "prism", "storm"), "%s: number of states" % " ".join(history))
            ref = observe(ctx, m, want, rng, " ".join(history), op["op"] in ("compose", "prism", "storm"))
            if ref.n > (9 if ref.kind == "PCTMC" else 14):
                raise Stop("too big")
    except (Stop, em.Degenerate) as e:
        ctx.tag("stopped: %s" % e)
    ctx.nontrivial(len(history) > 2)


def run(case, ctx):
    spec = case["model"]
    m = build_any(case)
    ref = Ref(spec)
    if case.get("order"):
        ref = ref_of(m)
    if spec["kind"] == "PCTMC":
        ref.kind = "PCTMC"
    follow(ctx, m, ref, case["ops"], case["seed"], [type(m).__name__])


SUBS = [
    Sub("pipeline", gen_case, run, 1500, 20000,
        "random model of each kind and 2 to 4 operations (save/load, Storm, Prism, BW, Alergia, IOAlergia, conversions, "
        "composition, relabelling, instantiation), each applied to the model given by the previous one; non-trivial: two operations"),
]
