"""C28: loadPrism gives the model a Prism program describes (reference: an interpreter of the programs)."""
import itertools
import os
import gen
from build import Sub, snapshot
from ref import Ref, ev, sy
from props.c16 import ref_of
from props.c19 import load, pref, same_behaviour

ACTS = ["go", "stop", "a0", "a1", "up_2"]
VARS = ["x", "y", "z"]


# ------------------------------------------------------------------ expressions: numbers, names, [op, ...]
def text(e):
    if isinstance(e, bool):
        return "true" if e else "false"
    if isinstance(e, (int, float)):
        return repr(e)
    if isinstance(e, str):
        return e
    op, *a = e
    a = [text(x) for x in a]
    if op in ("min", "max", "mod"):
        return "%s(%s,%s)" % (op, a[0], a[1])
    if op == "!":
        return "!(%s)" % a[0]
    return "(%s)" % ((" %s " % op).join(a))


def value(e, env):
    if isinstance(e, (bool, int, float)):
        return e
    if isinstance(e, str):
        return env[e]
    op, *a = e
    a = [value(x, env) for x in a]
    if op == "min":
        return min(a)
    if op == "max":
        return max(a)
    if op == "mod":
        return a[0] % a[1]
    if op == "!":
        return not a[0]
    if op == "&":
        return all(a)
    if op == "|":
        return any(a)
    if op == "=":
        return a[0] == a[1]
    if op == "!=":
        return a[0] != a[1]
    if op == "<":
        return a[0] < a[1]
    if op == "<=":
        return a[0] <= a[1]
    if op == ">":
        return a[0] > a[1]
    if op == "+":
        return sum(a)
    if op == "-":
        return a[0] - a[1]
    if op == "*":
        p = 1
        for x in a:
            p = p * x
        return p
    if op == "/":
        return a[0] / a[1]
    raise ValueError(op)


def names(e):
    if isinstance(e, str):
        return {e}
    return set().union(*[names(x) for x in e[1:]]) if isinstance(e, list) else set()


# ------------------------------------------------------------------ generation
def gen_var(r, i):
    if r.chance(1, 5):
        return dict(name="b%d" % i, bool=True, init=r.chance(1, 2))
    lo = r.pick([0, 0, 0, 1, 2])
    hi = lo + r.int(1, 3)
    return dict(name=VARS[i], bool=False, lo=lo, hi=hi, init=r.int(lo, hi))


def gen_cond(r, vs, consts, depth=1):
    c = r.int(0, 7)
    if depth and c == 0:
        return ["&", gen_cond(r, vs, consts, 0), gen_cond(r, vs, consts, 0)]
    if depth and c == 1:
        return ["|", gen_cond(r, vs, consts, 0), gen_cond(r, vs, consts, 0)]
    if depth and c == 2:
        return ["!", gen_cond(r, vs, consts, 0)]
    if c == 3:
        return True
    v = r.pick(vs)
    if v["bool"]:
        return v["name"]
    k = r.int(v["lo"], v["hi"])
    if consts and r.chance(1, 4):
        k = r.pick(consts)[0]
    return [r.pick(["=", "=", "!=", "<", "<=", ">"]), v["name"], k]


def gen_assign(r, v):
    n = v["name"]
    if v["bool"]:
        return [n, r.pick([True, False, ["!", n]])]
    lo, hi = v["lo"], v["hi"]
    return [n, r.pick([lo, hi, r.int(lo, hi), ["min", ["+", n, 1], hi], ["max", ["-", n, 1], lo],
                       ["+", ["mod", ["+", n, r.int(0, 2)], hi - lo + 1], lo], ["-", lo + hi, n]])]


def gen_probs(r, k, dconsts):
    if k == 2 and dconsts and r.chance(1, 3):
        p = r.pick(dconsts)[0]
        return [p, ["-", 1, p]]
    w = [r.int(1, 5) for _ in range(k)]
    return [["/", x, sum(w)] if k > 1 else 1 for x in w]


def gen_rate(r, params, dconsts):
    c = r.pick([r.int(1, 9), r.int(1, 99) / 10, ["/", 1, r.int(2, 7)]])
    if dconsts and r.chance(1, 6):
        c = ["*", c, r.pick(dconsts)[0]]
    if params and r.chance(1, 2):
        p = r.pick(params)
        return r.pick([p, ["*", c, p], ["*", p, r.pick(params)], ["+", p, c], ["*", 2, ["+", p, r.pick(params)]]])
    return c


def gen_prog(r, kinds=("dtmc", "mdp", "mdp", "ctmc", "ctmc", "ctmc"), free=None):
    kind = r.pick(list(kinds))
    nm = r.pick([1, 1, 2, 2, 3])
    mods, i = [], 0
    for _ in range(nm):
        k = r.pick([1, 1, 2]) if i < 2 else 1
        if i + k > 3:
            k = 3 - i
        if k == 0:
            break
        mods.append(dict(vars=[gen_var(r, j) for j in range(i, i + k)], commands=[]))
        i += k
    allv = [v for m in mods for v in m["vars"]]
    ints = [["K%d" % j, r.int(0, 3)] for j in range(r.int(0, 2))]
    dconsts = [["d%d" % j, r.pick([0.25, 0.3, 0.5, 0.8])] for j in range(r.int(0, 2))]
    params = []
    if kind == "ctmc" and r.chance(1, 2) or free:
        params = gen.param_pool(r, prism=True)[:r.int(1, 3)]
    acts = r.sample(ACTS, r.int(1, 3))
    for m in mods:
        own = m["vars"]
        if kind == "dtmc":
            v = own[0]
            parts = [v["name"], ["!", v["name"]]] if v["bool"] else \
                [["=", v["name"], x] for x in range(v["lo"], v["hi"] + 1)]
            for g in parts:
                k = r.int(1, 3)
                m["commands"].append(["t" if len(mods) > 1 else r.pick(["", "t"]), g,
                                      [[p, gen_updates(r, own)] for p in gen_probs(r, k, dconsts if not free else params and [[q] for q in params])]])
            continue
        for _ in range(r.int(1, 4)):
            act = r.pick(acts) if r.chance(3, 4 if kind == "mdp" else 6) else ""
            if kind == "mdp":
                k = r.int(1, 3)
                probs = gen_probs(r, k, dconsts if not free else [[q] for q in params])
            else:
                k = r.int(1, 2)
                probs = [gen_rate(r, params, dconsts) for _ in range(k)]
            m["commands"].append([act, gen_cond(r, allv, ints), [[p, gen_updates(r, own)] for p in probs]])
    unique = r.chance(2, 3)
    labels = []
    if unique:
        for v in allv:
            labels += [[v["name"] + "T", v["name"]]] if v["bool"] else \
                [[v["name"] + str(x), ["=", v["name"], x]] for x in range(v["lo"], v["hi"] + 1)]
        labels = r.shuffle(labels)
    else:
        for n in r.sample(["a", "b", "goal", "x_1"], r.int(0, 3)):
            labels.append([n, gen_cond(r, allv, ints)])
    return dict(kind=kind, modules=mods, ints=ints, dconsts=dconsts, params=params, labels=labels, unique=unique,
                rewards=r.chance(1, 6), tries=[{p: gen.pvalue(r) for p in params} for _ in range(2)], timed=False, traces=[])


def gen_updates(r, own):
    vs = r.sample(own, r.int(0 if r.chance(1, 6) else 1, len(own)))
    return [gen_assign(r, v) for v in vs]


# ------------------------------------------------------------------ the program
def render(p):
    out = [p["kind"], ""]
    out += ["const int %s = %d;" % tuple(c) for c in p["ints"]]
    out += ["const double %s = %r;" % tuple(c) for c in p["dconsts"]]
    out += ["const double %s;" % c for c in p["params"]]
    for i, m in enumerate(p["modules"]):
        out += ["", "module M%d" % i]
        for v in m["vars"]:
            if v["bool"]:
                out.append("\t%s : bool init %s;" % (v["name"], text(v["init"])))
            else:
                out.append("\t%s : [%d..%d] init %d;" % (v["name"], v["lo"], v["hi"], v["init"]))
        for act, g, ups in m["commands"]:
            u = " + ".join("%s : %s" % (text(q), " & ".join("(%s'=%s)" % (x, text(e)) for x, e in up) or "true")
                           for q, up in ups)
            out.append("\t[%s] %s -> %s;" % (act, text(g), u))
        out.append("endmodule")
    if p["rewards"]:
        out += ["", 'rewards "r"', "\ttrue : 1;", "endrewards"]
    out.append("")
    out += ['label "%s" = %s;' % (n, text(c)) for n, c in p["labels"]]
    return "\n".join(out) + "\n"


def interpret(p, vals):
    """states, labels, choices[s] = [(action, {s': probability or rate})], parameters used"""
    allv = [v for m in p["modules"] for v in m["vars"]]
    order = [v["name"] for v in allv]
    base = dict([tuple(c) for c in p["ints"]] + [tuple(c) for c in p["dconsts"]], **vals)
    first = tuple(v["init"] for v in allv)
    states, pos, choices, used = [first], {first: 0}, [], set()
    alph = [{c[0] for c in m["commands"] if c[0]} for m in p["modules"]]
    while len(choices) < len(states):
        st = states[len(choices)]
        env = dict(base, **dict(zip(order, st)))
        combos = []
        for m in p["modules"]:
            combos += [("", [c]) for c in m["commands"] if not c[0] and value(c[1], env)]
        for a in sorted(set().union(*alph)):
            per = [[c for c in m["commands"] if c[0] == a and value(c[1], env)]
                   for m, al in zip(p["modules"], alph) if a in al]
            combos += [(a, list(x)) for x in itertools.product(*per)]
        row = []
        for a, cs in combos:
            dist = {}
            for ups in itertools.product(*[c[2] for c in cs]):
                x, new = 1.0, dict(zip(order, st))
                for q, up in ups:
                    x *= value(q, env)
                    used |= names(q) & set(p["params"])
                    for n, e in up:
                        new[n] = value(e, env)
                t = tuple(new[n] for n in order)
                if t not in pos:
                    pos[t] = len(states)
                    states.append(t)
                dist[pos[t]] = dist.get(pos[t], 0.0) + x
            row.append((a, dist))
        choices.append(row)
    labs = []
    for i, st in enumerate(states):
        env = dict(base, **dict(zip(order, st)))
        on = sorted(n for n, c in p["labels"] if value(c, env))
        labs.append("_".join(on) if on else ("init" if i == 0 else "empty"))
    return states, labs, choices, used


def reference(p, vals):
    states, labs, choices, used = interpret(p, vals)
    n = len(states)
    ref = Ref.__new__(Ref)
    ref.kind = dict(dtmc="MC", mdp="MDP", ctmc="CTMC")[p["kind"]]
    ref.labels, ref.n = list(labs), n
    if p["kind"] == "mdp":
        ref.P = [row or [("", {s: 1.0})] for s, row in enumerate(choices)]      # a deadlock becomes a self-loop
    else:
        ref.P = []
        for row in choices:
            d = {}
            for _, x in row:
                for t, q in x.items():
                    d[t] = d.get(t, 0.0) + q
            ref.P.append(d)
    ref.init = [1.0 if s == 0 else 0.0 for s in range(n)]
    if labs[0] != "init":
        ref.labels.append("init")
        ref.P.append({0: 1.0})
        ref.init = [0.0] * n + [1.0]
        ref.n += 1
    return ref, used


def run(p, ctx):
    f = ctx.path("m.prism")
    src = render(p)
    open(f, "w").write(src)
    vals = {q: 1.0 for q in p["params"]}
    ref, used = reference(p, vals)
    kind = ref.kind
    got = load(f)
    ctx.check(open(f).read() == src, "loadPrism changed the file")
    ctx.tag(kind + (" parametric" if used else ""))
    if len(p["modules"]) > 1:
        ctx.tag("several modules")
    ctx.nontrivial(ref.n > 3)
    want = "PCTMC" if used else kind
    ctx.check(type(got).__name__ == want or (p["params"] and not used and type(got).__name__ == "PCTMC"),
              "kind of the loaded model: %s instead of %s" % (type(got).__name__, want), src)
    ctx.check(got.nb_states == ref.n, "number of states: %d instead of %d" % (got.nb_states, ref.n), src)
    labels = [got.getLabel(s) for s in range(ref.n)]
    ctx.check(sorted(labels) == sorted(ref.labels), "labels", labels, ref.labels, src)
    ctx.check([s for s in range(ref.n) if got.pi(s) > 0] == [labels.index("init")], "initial state", src)
    if kind == "MDP":
        mdp(p, ctx, got, ref, labels, src)
    elif type(got).__name__ == "PCTMC":
        ctx.check(set(got.parameter_str) == used, "parameters", got.parameter_str, used, src)
        ctx.check(len(set(got.parameter_str)) == len(got.parameter_str), "parameters listed twice", got.parameter_str)
        for q in used:
            ctx.check(not got.isInstantiated(param=q), "%s has a value" % q)
        indexes(ctx, got, src)
        for vals in p["tries"]:
            ref, _ = reference(p, vals)
            compare(p, ctx, pref(got, vals), ref, labels, src)
            sub = sorted(used)
            ctx.check(got.instantiate(sub, [vals[q] for q in sub]), "instantiate refuses", vals)
            for s in range(ref.n):
                ctx.close(float(got.e(s)), sum(x for t, x in pref(got, vals).P[s].items()), "e(%d)" % s, rel=1e-9)
    else:
        compare(p, ctx, ref_of(got), ref, labels, src)
    if kind != "MDP" and used == set():
        again = ref_of(load(f)) if type(got).__name__ != "PCTMC" else None
        if again:
            ctx.check(again.P == ref_of(got).P and again.labels == labels, "loading again gives another model")


def indexes(ctx, got, src):
    """parameterIndexes and involvedParameters against the expressions"""
    where = {q: set() for q in got.parameter_str}
    for s in range(got.nb_states):
        for t in range(got.nb_states):
            free = {x.name for x in got.transitionExpression(s, t).free_symbols}
            ctx.check(set(got.involvedParameters(s, t)) == free, "involvedParameters(%d,%d)" % (s, t), src)
            for q in free:
                where[q].add((s, t))
    for q in where:
        idx = {tuple(int(y) for y in x) for x in got.parameterIndexes(q)}
        ctx.check(idx == where[q], "parameterIndexes(%s)" % q, idx, where[q], src)


def compare(p, ctx, got, ref, labels, src):
    if p["unique"]:
        for s in range(ref.n):
            i = labels.index(ref.labels[s])
            g = {labels[t]: x for t, x in got.P[i].items()}
            w = {ref.labels[t]: x for t, x in ref.P[s].items()}
            ctx.check(set(g) == set(w), "transitions of %s" % ref.labels[s], g, w, src)
            for t in w:
                ctx.close(g[t], w[t], "%s -> %s in\n%s" % (ref.labels[s], t, src), rel=1e-9)
    else:
        same_behaviour(ctx, got, ref, p)


def mdp(p, ctx, got, ref, labels, src):
    h = ref_of(got)
    names_ = set(got.getActions())
    ctx.check(len(names_) == len(got.getActions()), "actions listed twice", got.getActions(), src)
    if not p["unique"]:
        if any(len({a for a, _ in row}) < len(row) or any(not a for a, _ in row) for row in ref.P if isinstance(row, list)):
            return
        acts = {a for row in ref.P if isinstance(row, list) for a, _ in row}
        flat = ref
        flat.P = [dict(row) if isinstance(row, list) else {a: dict(row) for a in names_} for row in ref.P]
        ctx.check(names_ == acts, "actions", names_, acts, src)
        same_behaviour(ctx, h, flat, p)
        return
    for s in range(ref.n):
        i = labels.index(ref.labels[s])
        g = {a: {labels[t]: x for t, x in row.items()} for a, row in h.P[i].items() if row}
        if isinstance(ref.P[s], dict):       # the initial state
            ctx.check(set(g) == names_ and all(x == {ref.labels[t]: q for t, q in ref.P[s].items()} for x in g.values()),
                      "initial state", g, src)
            continue
        w = [(a, {ref.labels[t]: x for t, x in row.items()}) for a, row in ref.P[s]]
        ctx.check(len(g) == len(w), "number of choices of %s" % ref.labels[s], g, w, src)
        rest = dict(g)
        for a, row in w:
            if a and sum(b == a for b, _ in w) == 1:
                ctx.check(a in rest and alike(rest[a], row), "action %s of %s" % (a, ref.labels[s]), g, w, src)
                rest.pop(a)
        for a, row in w:
            if not a or sum(b == a for b, _ in w) > 1:
                m = next((b for b in sorted(rest) if alike(rest[b], row)), None)
                ctx.check(m is not None, "a choice of %s" % ref.labels[s], g, w, src)
                rest.pop(m)
                ctx.tag("choices to be named")


def alike(a, b):
    return set(a) == set(b) and all(abs(a[t] - b[t]) <= 1e-9 for t in a)


# ------------------------------------------------------------------ what jajapy has no model for
def gen_refuse(r):
    return gen_prog(r, kinds=("dtmc", "mdp"), free=True)


def run_refuse(p, ctx):
    ref, used = reference(p, {q: 0.4 for q in p["params"]})
    if not used:
        ctx.tag("parameter not used")
        return
    ctx.nontrivial()
    f = ctx.path("m.prism")
    open(f, "w").write(render(p))
    ctx.raises(Exception, lambda: load(f), "a %s with free parameters" % p["kind"])


SUBS = [
    Sub("programs", gen_prog, run, 1800, 25000,
        "random Prism programs: dtmc, mdp, ctmc (with free constants or not); 1-3 modules of 1-2 variables, shared and "
        "local actions, guards over all the variables, constants, labels identifying the states or not; every state, "
        "label, choice, probability, rate and parameter against an interpreter; non-trivial: more than 3 states"),
    Sub("refused", gen_refuse, run_refuse, 150, 1500, "dtmc and mdp with free constants: refused"),
]
