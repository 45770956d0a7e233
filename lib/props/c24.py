"""C24: IOAlergia merges exactly the compatible states of the IO prefix tree."""
import random
import zlib
from build import Sub, mkset, snapshot
from props.c16 import ref_of
from props.c19 import load
from props.c23 import generated, bag, bound_ok, Close, gen_long, expand, deep
import jajapy as ja

LAB = ["a", "b", "c", "d", "Z"]
ACT = ["A", "B", "go"]
EPS = [0.05, 0.1, 0.5, 0.9, 0.01, 1e-4, 1e-12, 1.0, 1e-300, 1.9]


def gen_case(r, again=True):
    labs = LAB[:r.pick([1, 2, 2, 2, 3, 5])]
    acts = ACT[:r.pick([1, 2, 2, 3])]
    first = r.pick(["init", "init", labs[0]])
    n = r.pick([1, 3, 8, 15, 25])
    tr = [[first] + t for t in generated(r, labs, n, r.pick([2, 3, 5]), acts)]
    if all(len(t) == 1 for t in tr):
        tr[0] += [acts[0], labs[-1]]
    c = dict(traces=bag(r, tr, r.chance(3, 4)), eps=r.pick(EPS[:6] if r.chance(3, 4) else EPS + [1.99]), prism=r.chance(1, 12))
    c["order"] = r.shuffle(range(len(c["traces"])))
    if again and r.chance(1, 8):       # what the object learned before
        c["before"] = gen_case(r, False)
    return c


class Node:
    def __init__(self, prefix):
        self.prefix, self.label = prefix, prefix[-1]
        self.n, self.kids = {}, {}       # {action: {observation: frequency, or node}}


def compatible(x, y, eps):
    if x.label != y.label:
        return False
    for a in x.n:
        if a not in y.n:
            continue
        n1, n2 = sum(x.n[a].values()), sum(y.n[a].values())
        for o in x.n[a]:
            if o in y.n[a]:
                if not bound_ok(x.n[a][o], n1, y.n[a][o], n2, eps):
                    return False
                if not compatible(x.kids[a][o], y.kids[a][o], eps):
                    return False
    return True


# Folding gives the same automaton in any order, but of two nodes which are folded together the order tells which
# prefix names the node afterwards, and so, rarely, when it is processed.  The statement leaves this open.
ORDERS = ["code", "sorted", "reversed", "smallest"]


def fold(x, y, order="code", red=()):
    if order == "smallest" and y.prefix < x.prefix and x not in red:
        x.prefix = y.prefix
    for a in y.n if order == "code" else sorted(y.n, reverse=order == "reversed"):
        for o in sorted(y.n[a], reverse=order == "reversed"):
            d, k = x.n.setdefault(a, {}), x.kids.setdefault(a, {})
            if o in d:
                d[o] += y.n[a][o]
                fold(k[o], y.kids[a][o], order, red)
            else:
                d[o], k[o] = y.n[a][o], y.kids[a][o]


def learn(traces, eps, order="code"):
    traces = sorted(traces)
    root = Node(traces[0][0][:1])
    for tr, m in traces:
        x = root
        for i in range(1, len(tr), 2):
            a, o = tr[i], tr[i + 1]
            d = x.n.setdefault(a, {})
            if o not in d:
                d[o] = 0
                x.kids.setdefault(a, {})[o] = Node(tr[:i + 2])
            d[o] += m
            x = x.kids[a][o]
    red, merges = [root], 0
    while True:
        blue = [(y.prefix, x, a, o) for x in red for a in x.kids for o, y in x.kids[a].items() if y not in red]
        if not blue:
            break
        _, x, a, o = min(blue, key=lambda z: z[0])
        b = x.kids[a][o]
        for s in red:
            if compatible(s, b, eps):
                x.kids[a][o] = s
                fold(s, b, order, red)
                merges += 1
                break
        else:
            red.append(b)
    return root, len(red), merges


def walks(ref, seed, n=8):
    rng = random.Random(seed)
    res = []
    for _ in range(n):
        s = ref.init.index(1.0)
        t = [ref.labels[s]]
        for _ in range(rng.randint(1, 6)):
            acts = [a for a in sorted(ref.P[s]) if ref.P[s][a]]
            if not acts:
                break
            a = rng.choice(acts)
            s = rng.choice(sorted(ref.P[s][a]))
            t += [a, ref.labels[s]]
        res.append(t)
    return res


def same(ctx, ref, start, root):
    pairs = {start: root}
    todo = [start]
    while todo:
        s = todo.pop()
        x = pairs[s]
        ctx.check({a for a in ref.P[s] if ref.P[s][a]} == set(x.n), "actions of state %d" % s, ref.P[s], x.n)
        for a in x.n:
            tot = sum(x.n[a].values())
            ctx.check(len(ref.P[s][a]) == len(x.n[a]), "successors of state %d, %s" % (s, a), ref.P[s][a], x.n[a])
            for t, p in ref.P[s][a].items():
                o = ref.labels[t]
                ctx.check(o in x.n[a], "state %d followed by %r" % (s, o), x.n)
                ctx.close(p, x.n[a][o] / tot, "probability of %s, %r after state %d" % (a, o, s), rel=1e-12)
                y = x.kids[a][o]
                if t in pairs:
                    ctx.check(pairs[t] is y, "successor of state %d for %s, %r: not the state it should be merged with" % (s, a, o))
                else:
                    pairs[t] = y
                    todo.append(t)
    ctx.check(len({id(x) for x in pairs.values()}) == len(pairs), "two states for one state of the automaton")
    return len(pairs)


def fit(traces, eps, **kw):
    return ja.IOAlergia().fit(mkset(traces, 1), eps, stormpy_output=False, **kw)


def valid(ctx, ref, head, first):
    i = ref.labels.index("init")
    ctx.check(ref.labels.count("init") == 1 and ref.init[i] == 1.0, "initial state", ref.labels, ref.init)
    for s in range(ref.n):
        for a in ref.actions:
            row = ref.P[s].get(a)
            if row:
                ctx.close(sum(row.values()), 1.0, "sum of row %d, %s" % (s, a))
                ctx.check(all(x > 0 for x in row.values()), "negative probability", row)
                ctx.check(len({ref.labels[t] for t in row}) == len(row), "not deterministic", row, ref.labels)
    if head:
        return i
    start = None
    for a in ref.actions:
        row = ref.P[i].get(a)
        ctx.check(row and len(row) == 1, "actions of the added initial state", ref.P[i])
        t = list(row)[0]
        ctx.check(ref.labels[t] == first and start in (None, t), "the added initial state leads elsewhere", ref.P[i])
        start = t
    return start


def run(c, ctx):
    tr, eps = c["traces"], c["eps"]
    head = tr[0][0][0] == "init"
    m = fit(tr, eps)
    if c.get("before"):
        ctx.tag("the object had learned before")
        o = ja.IOAlergia()
        o.fit(mkset(c["before"]["traces"], 1), c["before"]["eps"], stormpy_output=False)
        x = snapshot(o.fit(mkset(tr, 1), eps, stormpy_output=False))
        ctx.check(x == snapshot(m), "an object which had learned something else learns something else", x, snapshot(m))
    ctx.check(type(m).__name__ == "MDP", "kind of the model")
    ref = ref_of(m)
    acts = sorted({a for t, _ in tr for a in t[1::2]})
    ctx.check(sorted(m.getActions()) == acts, "actions", m.getActions(), acts)
    start = valid(ctx, ref, head, tr[0][0][0])
    full = [t if head else ["init", acts[0]] + t for t, _ in tr]
    for t in full:
        ctx.check(ref.prob(t) > 0 or len(t) > 40, "a training trace is impossible", t)
    got2 = ref_of(fit([tr[i] for i in c["order"]], eps))
    ctx.check(got2.n == ref.n, "the order of the traces changes the number of states", got2.n, ref.n)
    for t in full + walks(ref, zlib.crc32(repr(c).encode())):
        ctx.close(got2.prob(t), ref.prob(t), "the order of the traces changes the probability of %r" % (t,), rel=1e-9, abs_=1e-250)
    err = None
    for order in ORDERS:
        try:
            root, n, merges = learn(tr, eps, order)
        except Close:
            ctx.tag("too close to the bound")
            return
        try:
            got = same(ctx, ref, start, root)
            ctx.check(got == n and ref.n == n + (0 if head else 1), "%d states, %d expected" % (ref.n, n))
            break
        except AssertionError as e:
            err = err or e
    else:
        raise err
    if err:
        ctx.tag("depends on the order of folding")
    ctx.tag("merged" if merges else "no merge")
    ctx.tag("%d states" % min(n, 9))
    ctx.nontrivial(merges > 0 and n > len({o for t in full for o in t[::2]}) - (0 if head else 1))
    if c["prism"] and all(any(x.values()) for x in ref.P):
        f = ctx.path("a.prism")
        fit(tr, eps, output_file_prism=f)
        got = ref_of(load(f))
        for t in full:
            ctx.close(got.prob(t), ref.prob(t), "output_file_prism: probability of %r" % (t,), rel=1e-6, abs_=1e-250)
        ctx.tag("prism")


def gen_bigram(r):
    labs, acts = LAB[:r.int(1, 4)], ACT[:r.int(1, 3)]
    first = r.pick(["init", labs[0]])
    tr = []
    for _ in range(r.int(1, 10)):
        t = [first]
        for _ in range(r.int(1, 5)):
            t += [r.pick(acts), r.pick(labs)]
        tr.append(t)
    return dict(traces=bag(r, tr, False))


def run_bigram(c, ctx):
    """everything is compatible: frequencies of an observation given the previous one and the action"""
    tr = c["traces"]
    head = tr[0][0][0] == "init"
    ref = ref_of(fit(tr, 1e-300))
    valid(ctx, ref, head, tr[0][0][0])
    cnt = {}
    for t, x in tr:
        for i in range(0, len(t) - 1, 2):
            d = cnt.setdefault((t[i], t[i + 1]), {})
            d[t[i + 2]] = d.get(t[i + 2], 0) + x
    labs = {o for t, _ in tr for o in t[::2]} | {"init"}
    ctx.check(sorted(ref.labels) == sorted(labs), "one state per label", ref.labels, labs)
    for s in range(ref.n):
        if ref.labels[s] == "init" and not head:
            continue
        for a in ref.actions:
            d = cnt.get((ref.labels[s], a), {})
            row = ref.P[s].get(a, {})
            ctx.check({ref.labels[t] for t in row} == set(d), "successors of %r, %s" % (ref.labels[s], a), row, d)
            for t, p in row.items():
                ctx.close(p, d[ref.labels[t]] / sum(d.values()), "%r after %r, %s" % (ref.labels[t], ref.labels[s], a), rel=1e-12)
    ctx.nontrivial(len(cnt) > 2)


def gen_long_io(r):
    return gen_long(r, ACT[:r.int(1, 2)])


def run_long(c, ctx):
    """traces longer than the recursion limit of Python"""
    tr = expand(c)
    ref = ref_of(fit(tr, c["alpha"]))
    try:
        root, n, merges = deep(learn, tr, c["alpha"])
    except Close:
        ctx.tag("too close to the bound")
        return
    ctx.check(same(ctx, ref, ref.labels.index("init"), root) == n, "number of states", ref.n, n)
    ctx.tag("%d states" % min(n, 9))
    ctx.nontrivial(merges > 0 and len(set(c["word"])) > 1)


SUBS = [
    Sub("long", gen_long_io, run_long, 30, 300,
        "traces of 1000-1600 steps (periodic with exceptions) and some of their prefixes against the reference; "
        "non-trivial: several labels, something was merged"),
    Sub("fit", gen_case, run, 12000, 150000,
        "random sets of MDP traces (of small automata, with small and large multiplicities) and epsilon against a "
        "reference IOALERGIA; determinism, possible training traces, other order; non-trivial: something was merged and "
        "two states with the same observation were kept"),
    Sub("bigram", gen_bigram, run_bigram, 1500, 20000,
        "epsilon=1e-300: frequencies given observation and action; non-trivial: at least three of them"),
]
