"""C01: a created model is exactly the model that was described."""
import copy, math
import gen
from gen import init_row
from build import Sub, as_init, direct, transitions
from ref import Ref, ev, gauss
import jajapy as ja
import numpy as np

KINDS = ["MC", "MDP", "CTMC", "PCTMC", "HMM", "GOHMM"]


def gen_create(r):
    k = r.pick(KINDS)
    if k == "PCTMC":
        m = gen.pctmc(r, big=7, instantiated=r.chance(2, 3))
        if m["values"] and r.chance(1, 5):
            m["values"][r.pick(sorted(m["values"]))] = 0.0
    else:
        m = gen.ANY[k](r)
    if k == "MC" and m["n"] > 1 and r.chance(1, 6):  # a state without successor
        d = r.int(0, m["n"] - 1)
        if any(m["P"][s][d] > 0 for s in range(m["n"]) if s != d):
            m["P"][d] = [0.0] * m["n"]
    case = dict(model=m, seed=r.int(0, 10 ** 6), how=r.pick(["list", "array"]), zeros=r.chance(1, 3),
                name=r.pick([None, "my model", "x"]), ints=r.chance(1, 4), triples=r.chance(1, 2))
    n = m["n"]
    if k in ("CTMC", "PCTMC") and n > 1 and r.chance(1, 3):
        # synchronous transitions, some states being only mentioned there
        M = m["R" if k == "CTMC" else "T"]
        no = 0.0 if k == "CTMC" else None
        if r.chance(2, 3):
            case["zeros"] = False
            d = r.int(0, n - 1)
            for s in range(n):
                M[s][d] = M[d][s] = no
        rate = (lambda: gen.rate(r)) if k == "CTMC" else (lambda: r.pick([gen.expr(r, m["params"]), gen.rate(r)]))
        sync = [[r.int(0, n - 1), r.pick(["go", "b"]), r.int(0, n - 1), rate()] for _ in range(r.int(0, 3))]
        for s in range(n):
            if all(not M[s][t] and not M[t][s] for t in range(n)) and not any(s in (x[0], x[2]) for x in sync):
                o = r.int(0, n - 1)
                sync.append([s, "go", o, rate()] if r.chance(1, 3) else [o, "go", s, rate()])
        case["sync"] = sync
    elif k != "PCTMC" and r.chance(1, 4):
        # states with any numbers: they are taken in increasing order
        ids, x = [], r.int(0, 3)
        for _ in range(n):
            ids.append(x)
            x += r.pick([1, 1, 2, 5])
        case["ids"] = ids
        m["init"] = init_row(m["init"], n)
    return case


def permute(lst, seed):
    import random
    lst = list(lst)
    random.Random(seed).shuffle(lst)
    return lst


def args_of(case):
    spec = case["model"]
    k, n = spec["kind"], spec["n"]
    tr = permute(transitions(spec, case.get("zeros", False)), case["seed"])
    if case.get("ints"):
        tr = [t[:-1] + (int(t[-1]),) if not isinstance(t[-1], str) and t[-1] in (0.0, 1.0) else t for t in tr]
    init = as_init(spec["init"], case.get("how", "list"))
    ids = case.get("ids") or list(range(n))
    to = 2 if k == "MDP" else 1
    tr = [tuple(ids[x] if i in (0, to) else x for i, x in enumerate(t)) for t in tr]
    if k in ("MC", "MDP", "CTMC"):
        return [tr, list(spec["labels"]), init]
    if k == "PCTMC":
        return [tr, list(spec["labels"]), list(spec["params"]), init, dict(spec["values"])]
    if k == "HMM":
        em = [(ids[s], o, x) for s in range(n) for o, x in zip(spec["alphabet"], spec["E"][s]) if x > 0 or case.get("zeros")]
        return [tr, permute(em, case["seed"] + 1), init]
    if case.get("triples"):
        # the distributions of a state in their order, the states in any order
        out = [(ids[s], mu, sg) for s in permute(range(n), case["seed"]) for mu, sg in spec["out"][s]]
    else:
        out = [[tuple(x) for x in row] for row in spec["out"]]
    return [tr, out, init]


CREATE = dict(MC=ja.createMC, MDP=ja.createMDP, CTMC=ja.createCTMC, PCTMC=ja.createPCTMC, HMM=ja.createHMM,
              GOHMM=ja.createGoHMM)


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) == type(b) and np.array_equal(a, b)
    return type(a) == type(b) and a == b


def spoil(x):
    """changes the arguments after the call: the model is not made of them"""
    if isinstance(x, np.ndarray):
        x.fill(0.25)
    elif isinstance(x, dict):
        x["zzz"] = 1.0
        for k in x:
            x[k] = 99.0
    elif isinstance(x, list):
        for y in x:
            spoil(y)
        x.append("zzz")


def run_create(case, ctx):
    spec = case["model"]
    args = args_of(case)
    before = copy.deepcopy(args)
    kw = {} if case["name"] is None else dict(name=case["name"])
    sync = [tuple(x) for x in case.get("sync") or []]
    if sync:
        kw["synchronous_transitions"] = list(sync)
        ctx.tag("synchronous")
    if case.get("ids"):
        ctx.tag("state ids")
    m = CREATE[spec["kind"]](*args, **kw)
    for x, y in zip(args, before):
        ctx.check(same(x, y), "create changed its arguments", y, x)
    ctx.tag(spec["kind"])
    ctx.nontrivial(spec["n"] > 1)
    if sync:
        ctx.check(kw["synchronous_transitions"] == sync, "create changed the synchronous transitions")
        ctx.check(list(m.synchronous_transitions) == sync, "synchronous_transitions", m.synchronous_transitions, sync)
    elif spec["kind"] in ("CTMC", "PCTMC"):
        ctx.check(list(m.synchronous_transitions) == [], "synchronous_transitions", m.synchronous_transitions)
    if case["name"] is not None:
        ctx.check(m.name == case["name"], "name", m.name)
    check(ctx, m, spec, list(range(spec["n"] + 1)))
    spoil(args)
    if sync:
        kw["synchronous_transitions"].append((0, "zzz", 0, 1.0))
        ctx.check(list(m.synchronous_transitions) == sync, "the model shares the list of synchronous transitions")
        kw["synchronous_transitions"].pop()
    # the same again, from the description in another order
    case2 = dict(case, seed=case["seed"] + 5)
    m2 = CREATE[spec["kind"]](*args_of(case2), **kw)
    check(ctx, m2, spec, list(range(spec["n"] + 1)))
    check(ctx, m, spec, list(range(spec["n"] + 1)))


def check(ctx, m, spec, order):
    """order[i] = state of the spec (n: initial) which state i of the model is"""
    k, n = spec["kind"], spec["n"]
    inst = True
    if k == "PCTMC":
        inst = set(spec["values"]) == set(spec["params"])
    ref = Ref(spec, None if inst else {p: 1.0 for p in spec["params"]})
    N = ref.n
    order = order[:N]
    ctx.check(m.nb_states == N, "nb_states %r, expected %d" % (m.nb_states, N))
    for i, s in enumerate(order):
        ctx.check(float(m.pi(i)) == ref.init[s], "pi(%d)" % i, float(m.pi(i)), ref.init[s])
    if k == "HMM":
        ctx.check(sorted(m.getAlphabet()) == sorted(spec["alphabet"]), "getAlphabet", m.getAlphabet())
        for s in range(n):
            ctx.check(sorted(m.getAlphabet(s)) == sorted(ref.E[s]), "getAlphabet(%d)" % s, m.getAlphabet(s))
            for o in spec["alphabet"] + ["unknown"]:
                e = ref.E[s].get(o, 0.0)
                ctx.check(float(m.b(s, o)) == e, "b(%d,%s)" % (s, o), m.b(s, o), e)
                for t in range(n):
                    ctx.close(float(m.tau(s, t, o)), ref.P[s].get(t, 0.0) * e, "tau(%d,%d,%s)" % (s, t, o), rel=1e-12)
            for t in range(n):
                ctx.check(float(m.a(s, t)) == ref.P[s].get(t, 0.0), "a(%d,%d)" % (s, t), m.a(s, t))
        return
    if k == "GOHMM":
        for s in range(n):
            ctx.check([float(x) for x in m.mu(s)] == [x[0] for x in spec["out"][s]], "mu", m.mu(s))
            x = [mu + 0.3 * sg for mu, sg in spec["out"][s]]
            for d in range(spec["d"]):
                ctx.check(float(m.mu_n(s, d)) == spec["out"][s][d][0], "mu_n")
                ctx.close(float(m.b_n(s, d, x[d])), gauss([spec["out"][s][d]], [x[d]]), "b_n(%d,%d)" % (s, d))
            ctx.close(float(m.b(s, x)), gauss(spec["out"][s], x), "b(%d)" % s)
            for t in range(n):
                ctx.check(float(m.a(s, t)) == ref.P[s].get(t, 0.0), "a(%d,%d)" % (s, t), m.a(s, t))
        return
    labs = [ref.labels[s] for s in order]
    ctx.check([m.getLabel(i) for i in range(N)] == labs, "labels", [m.getLabel(i) for i in range(N)], labs)
    ctx.check(sorted(m.getAlphabet()) == sorted(set(labs)), "getAlphabet", m.getAlphabet())
    other = ["unknown"] + sorted(set(labs))
    if k == "MDP":
        ctx.check(sorted(m.getActions()) == sorted(spec["actions"]), "getActions()", m.getActions())
    if k == "PCTMC":
        ctx.check(list(m.parameter_str) == list(spec["params"]), "parameters", m.parameter_str, spec["params"])
        ctx.check(bool(m.isInstantiated()) == inst, "isInstantiated()", spec["values"])
        for p in spec["params"] + ["zzz"]:
            ctx.check(bool(m.isInstantiated(param=p)) == (p in spec["values"]), "isInstantiated(param=%s)" % p)
            v = float(m.parameterValue(p))
            ctx.check(v == spec["values"][p] if p in spec["values"] else v != v, "parameterValue(%s)" % p, v)
            ctx.check((len(m.parameterIndexes(p)) > 0) == any(x and p in names(x) for row in spec["T"] for x in row),
                      "parameterIndexes(%s)" % p, m.parameterIndexes(p))
    for i, s in enumerate(order):
        if k == "MDP":
            ctx.check(sorted(m.getActions(i)) == sorted(ref.P[s]), "getActions(%d)" % i, m.getActions(i), sorted(ref.P[s]))
        if k in ("CTMC", "PCTMC") and (inst or s == n):
            e = ref.exit(s)
            ctx.close(float(m.e(i)), e, "e(%d)" % i, rel=1e-12)
            if e > 0:
                ctx.close(float(m.expected_time(i)), 1 / e, "expected_time(%d)" % i, rel=1e-12)
            for t in (0.0, 0.1, 1.0, 3.0):
                ctx.close(float(m.lkl(i, t)), e * math.exp(-e * t), "lkl(%d,%r)" % (i, t), rel=1e-11)
            ctx.check(float(m.lkl(i, -0.5)) == 0.0, "lkl of a negative time")
        if k == "PCTMC":
            for t in range(N):
                x = None if t == n else (repr(init_row(spec["init"], n)[t]) if s == n else spec["T"][s][t])
                used = m.involvedParameters(i, t)
                want = [p for p in spec["params"] if x is not None and p in names(x)]
                ctx.check(sorted(used) == sorted(want), "involvedParameters(%d,%d)" % (i, t), used, want)
                for vals in ({p: 1.5 for p in spec["params"]}, {p: 0.3 + j for j, p in enumerate(spec["params"])}):
                    ctx.close(float(m.evaluateTransition(i, t, vals)), 0.0 if x is None else ev(x, vals),
                              "rate %d->%d (%s) under %r" % (i, t, x, vals), rel=1e-12)
            if not inst:
                continue
        for j, t in enumerate(order):
            if k == "MDP":
                for a in spec["actions"]:
                    p = ref.P[s].get(a, {}).get(t, 0.0)
                    ctx.check(float(m.a(i, j, a)) == p, "a(%d,%d,%s)" % (i, j, a), m.a(i, j, a), p)
                    for o in other:
                        ctx.check(float(m.tau(i, a, j, o)) == (p if o == labs[i] else 0.0), "tau(%d,%s,%d,%s)" % (i, a, j, o))
                ctx.check(float(m.tau(i, "no such action", j, labs[i])) == 0.0, "tau of an unknown action")
                continue
            p = ref.P[s].get(t, 0.0)
            if k == "MC":
                ctx.check(float(m.a(i, j)) == p, "a(%d,%d)" % (i, j), m.a(i, j), p)
            for o in other:
                hit = o == labs[i]
                ctx.check(float(m.b(i, o)) == float(hit), "b(%d,%s)" % (i, o))
                if k in ("CTMC", "PCTMC"):
                    ctx.close(float(m.l(i, j, o)), p if hit else 0.0, "l(%d,%d,%s)" % (i, j, o), rel=1e-14)
                q = ref.jump(s).get(t, 0.0) if k != "MC" else p
                ctx.close(float(m.tau(i, j, o)), q if hit else 0.0, "tau(%d,%d,%s)" % (i, j, o), rel=1e-12)


def names(x):
    import re
    return set(re.findall(r"[A-Za-z_]\w*", x))


def gen_direct(r):
    k = r.pick(["MC", "MDP", "CTMC"])
    m = gen.ANY[k](r)
    return dict(model=m, order=r.shuffle(range(m["n"] + 1)), extra=[r.int(0, m["n"]) for _ in range(r.int(0, 6))])


def run_direct(case, ctx):
    spec = case["model"]
    ctx.tag(spec["kind"])
    ctx.nontrivial(case["order"][-1] != spec["n"])
    m = direct(spec, case["order"])
    check(ctx, m, spec, case["order"])
    # states labelled 'init' are equally likely initial states
    labs = ["init" if i in case["extra"] else o for i, o in enumerate(m.labelling)]
    k = labs.count("init")
    m2 = type(m)(m.matrix, list(labs), *([list(m.actions)] if spec["kind"] == "MDP" else []))
    for i, o in enumerate(labs):
        ctx.close(float(m2.pi(i)), 1.0 / k if o == "init" else 0.0, "pi(%d), labels %r" % (i, labs))


def gen_refuse(r):
    k = r.pick(KINDS)
    if k == "PCTMC":
        m = gen.pctmc(r, lo=2)
    else:
        m = gen.ANY[k](r, lo=2)
    ways = {"MC": ["row", "short", "long", "reserved", "init"], "MDP": ["row", "short", "long", "reserved", "init"],
            "CTMC": ["short", "long", "reserved"], "PCTMC": ["short", "long", "reserved"],
            "HMM": ["row", "emission", "init"], "GOHMM": ["row", "sigma", "init"]}[k]
    return dict(model=m, way=r.pick(ways), s=r.int(0, m["n"] - 1), factor=r.pick([0.5, 0.9, 0.98, 1.02, 1.1, 2.0]),
                seed=r.int(0, 1000), how=r.pick(["list", "array"]), a=r.int(0, 20))


def run_refuse(case, ctx):
    spec = case["model"]
    k, n = spec["kind"], spec["n"]
    good = dict(case)
    CREATE[k](*args_of(good))  # accepted
    bad = copy.deepcopy(spec)
    way, s, f = case["way"], case["s"], case["factor"]
    if way == "row":
        if k == "MDP":
            acts = [a for a in range(len(spec["actions"])) if spec["P"][s][a] is not None]
            a = acts[case["a"] % len(acts)]
            bad["P"][s][a] = [x * f for x in bad["P"][s][a]]
        else:
            bad["P"][s] = [x * f for x in bad["P"][s]]
    elif way == "emission":
        bad["E"][s] = [x * f for x in bad["E"][s]]
    elif way == "init":
        bad["init"] = [x * f for x in init_row(spec["init"], n)]
    elif way == "sigma":
        bad["out"][s][case["a"] % spec["d"]][1] *= -1
    elif way == "short":
        bad["labels"] = bad["labels"][:-1]
    elif way == "long":
        bad["labels"] = bad["labels"] + ["a"]
    elif way == "reserved":
        bad["labels"][s] = "init"
    ctx.tag(k + " " + way)
    ctx.nontrivial()
    ctx.raises(Exception, lambda: CREATE[k](*args_of(dict(case, model=bad))), "invalid description (%s) accepted" % way)


def gen_large(r):
    kind = r.pick(["MC", "MDP", "CTMC", "HMM"])
    return dict(kind=kind, n=r.int(150, 400), mul=r.pick([7, 11, 13]), labs=r.int(1, 60), fan=r.int(1, 4))


def run_large(c, ctx):
    """hundreds of states, every accessor on the states and transitions which exist and some which do not"""
    n, k = c["n"], c["kind"]
    succ = [sorted({(s * c["mul"] + 17 * i) % n for i in range(c["fan"])}) for s in range(n)]
    lab = ["l%d" % ((s * s + 3) % c["labs"]) for s in range(n)]
    if k == "MDP":
        tr = [(s, "go", t, 1.0 / len(succ[s])) for s in range(n) for t in succ[s]] + [(s, "back", (s + n - 1) % n, 1.0) for s in range(0, n, 2)]
    else:
        x = (lambda s: 0.25 * (s + 1)) if k == "CTMC" else (lambda s: 1.0 / len(succ[s]))
        tr = [(s, t, x(s)) for s in range(n) for t in succ[s]]
    first = n // 2
    want = {tuple(t[:-1]): t[-1] for t in tr}
    ctx.nontrivial(c["labs"] > 1 and c["fan"] > 1)
    ctx.tag(k)
    if k == "HMM":
        m = ja.createHMM(tr, [(s, lab[s], 1.0) for s in range(n)], first)
    else:
        m = CREATE[k](tr, list(lab), first)
        ctx.check([m.getLabel(s) for s in range(n)] == lab, "labels")
    ctx.check([s for s in range(m.nb_states) if m.pi(s) > 0] == [first if k == "HMM" else n], "initial state")
    for s in range(n):
        if k == "MDP":
            ctx.check(sorted(m.getActions(s)) == (["back", "go"] if s % 2 == 0 else ["go"]), "getActions(%d)" % s)
        for t in sorted(set(succ[s] + [(s + n - 1) % n, (5 * s) % n])):
            if k == "MDP":
                for a in ("go", "back"):
                    ctx.check(float(m.a(s, t, a)) == want.get((s, a, t), 0.0), "a(%d,%d,%s)" % (s, t, a), m.a(s, t, a))
            else:
                p = want.get((s, t), 0.0)
                ctx.close(float(m.l(s, t, lab[s]) if k == "CTMC" else m.a(s, t)), p, "%d->%d" % (s, t), rel=1e-12)
        if k == "CTMC":
            ctx.close(float(m.e(s)), sum(want[s, t] for t in succ[s]), "e(%d)" % s)
        elif k == "HMM":
            ctx.check(float(m.b(s, lab[s])) == 1.0 and (m.b(s, "l0") == 0.0 or lab[s] == "l0"), "b(%d)" % s)


def gen_many(r):
    return dict(n=r.int(257, 262), p=r.int(1, 50), q=r.int(1, 50), mod=r.int(50, 500))


def run_many(c, ctx):
    """a PCTMC with more than 65536 transitions"""
    n = c["n"]
    v = lambda s, t: ((s * c["p"] + t * c["q"]) % c["mod"] + 1) / 8
    tr = [(s, t, v(s, t) if s or t else "x") for s in range(n) for t in range(n)]
    m = ja.createPCTMC(tr, ["l%d" % s for s in range(n)], ["x"], 0)
    for s, t, x in tr[1:400:7] + tr[400:60000:97] + tr[60000:]:
        ctx.check(m.transitionExpression(s, t) == x, "rate %d->%d" % (s, t), m.transitionExpression(s, t), x)
    ctx.check(str(m.transitionExpression(0, 0)) == "x" and m.involvedParameters(0, 0) == ["x"], "rate 0->0")
    ctx.check(float(m.transitionValue(n, 0)) == 1.0, "initial state")
    ctx.nontrivial()


def gen_ids(r):
    k = r.pick(KINDS)
    m = gen.pctmc(r, big=4) if k == "PCTMC" else gen.ANY[k](r)
    return dict(model=m, bad=r.pick([-1, -1, "n", "n", -2, "n+3", None, "x"]), s=r.int(0, m["n"] - 1), o=r.int(0, 5), a=r.int(0, 5))


def run_ids(case, ctx):
    """accessors asked for a state which does not exist"""
    from build import build
    spec, k = case["model"], case["model"]["kind"]
    m = build(spec)
    n, s, bad = m.nb_states, case["s"], case["bad"]
    bad = {"n": n, "n+3": n + 3}.get(bad, bad)
    obs = sorted(m.getAlphabet()) if k != "GOHMM" else []
    o = obs[case["o"] % len(obs)] if obs else None
    a = spec["actions"][case["a"] % len(spec["actions"])] if k == "MDP" else None
    calls = {}

    def two(name, f):
        calls[name + "(bad,s)"] = lambda x: f(x, s)
        calls[name + "(s,bad)"] = lambda x: f(s, x)

    if k == "MDP":
        two("a", lambda x, y: m.a(x, y, a))
        two("tau", lambda x, y: m.tau(x, a, y, o))
    elif k in ("MC", "HMM", "GOHMM"):
        two("a", m.a)
    else:
        two("l", lambda x, y: m.l(x, y, o))
    if k in ("MC", "HMM"):
        two("tau", lambda x, y: m.tau(x, y, o))
    if k == "CTMC":
        calls["e(bad)"] = m.e
        calls["lkl(bad)"] = lambda x: m.lkl(x, 1.0)
        calls["expected_time(bad)"] = m.expected_time
    if k in ("MC", "MDP", "CTMC", "PCTMC"):
        calls["getLabel(bad)"] = m.getLabel
    if k in ("MC", "CTMC", "PCTMC"):
        calls["b(bad)"] = lambda x: m.b(x, o)
    if k == "HMM" and bad != -1:     # -1 is its documented default value
        calls["getAlphabet(bad)"] = m.getAlphabet
    ctx.tag("%s %s" % (k, case["bad"]))
    ctx.nontrivial()
    for name, f in sorted(calls.items()):
        f(s)                         # accepted
        ctx.raises((IndexError, TypeError, ValueError), lambda: f(bad), "%s with bad=%r accepted" % (name, bad))


SUBS = [
    Sub("ids", gen_ids, run_ids, 700, 6000,
        "accessors with the id of no state (-1, n, n+3, a string, None) must refuse it; non-trivial: all"),
    Sub("many rates", gen_many, run_many, 1, 4,
        "PCTMC with 66000-69000 transitions, sampled rates; non-trivial: all", cpu=400),
    Sub("large", gen_large, run_large, 24, 300,
        "models with 150-400 states, sampled accessors; non-trivial: several labels and successors"),
    Sub("create", gen_create, run_create, 1400, 20000,
        "random description of each kind, shuffled, with explicit zeros, list/array/int initial state, both emission "
        "formats of GoHMMs, parameters of value 0; all accessors compared; non-trivial: several states"),
    Sub("constructors", gen_direct, run_direct, 800, 10000,
        "MC/MDP/CTMC through the class constructors with the initial state anywhere, and with several ones; non-trivial: not last"),
    Sub("refuse", gen_refuse, run_refuse, 1600, 12000,
        "valid description made invalid in one way (row sums, emission sums, initial sums, labelling length, reserved "
        "label, negative deviation); non-trivial: all"),
]
