"""C23: Alergia merges exactly the compatible states of the prefix tree."""
import math
import zlib
import gen
from build import Sub, mkset, snapshot
from props.c16 import ref_of
from props.c19 import load, walks
import jajapy as ja

LAB = ["a", "b", "c", "d", "init2", "Z"]


def generated(r, labs, n_traces, lmax, acts=None):
    """traces of a small random automaton: [[labels], ...] without the first one, repeated traces allowed"""
    n = r.int(1, 4)
    lab = [r.pick(labs) for _ in range(n)]
    A = acts or [None]
    rows = [[r.sample(range(n), r.int(1, min(2, n))) for _ in A] for _ in range(n)]
    skew = r.pick([2, 4, 10])
    res = []
    for _ in range(n_traces):
        s = r.int(0, n - 1)
        tr = []
        for _ in range(r.int(0, lmax)):
            a = r.int(0, len(A) - 1)
            succ = rows[s][a]
            s = succ[0] if len(succ) == 1 or r.int(0, skew - 1) > 0 else succ[1]
            tr += [A[a], lab[s]] if acts else [lab[s]]
        res.append(tr)
    return res


def bag(r, traces, big):
    """[[trace, multiplicity]]"""
    res = []
    for t in traces:
        for x in res:
            if x[0] == t:
                x[1] += 1
                break
        else:
            res.append([t, 1])
    if big:
        f = r.pick([1, 10, 50, 300])
        for x in res:
            x[1] = x[1] * f if r.chance(3, 4) else r.int(1, 3 * f)
    return res


ALPHA = [0.05, 0.1, 0.5, 0.9, 0.01, 1e-4, 1e-12, 1.0, 1e-300, 1.9]


def gen_case(r, again=True):
    labs = LAB[:r.pick([1, 2, 2, 2, 3, 3, 6])]
    head = r.chance(2, 3)
    tr = generated(r, labs, r.pick([1, 3, 8, 20, 40]), r.pick([3, 5, 8]))
    tr = [(["init"] if head else []) + t for t in tr]
    tr = [t if t else [labs[0]] for t in tr]
    c = dict(traces=bag(r, tr, r.chance(3, 4)), alpha=r.pick(ALPHA[:6] if r.chance(3, 4) else ALPHA), prism=r.chance(1, 12))
    c["order"] = r.shuffle(range(len(c["traces"])))
    if again and r.chance(1, 8):       # what the object learned before
        c["before"] = gen_case(r, False)
    return c


class Close(Exception):
    """a Hoeffding test too close to its bound: either answer is right"""


class Node:
    def __init__(self, label):
        self.label, self.n, self.kids = label, {}, {}      # frequency and child of every following label


def bound_ok(f1, n1, f2, n2, alpha):
    d = abs(f1 / n1 - f2 / n2)
    b = (math.sqrt(1 / n1) + math.sqrt(1 / n2)) * math.sqrt(0.5 * math.log(2 / alpha))
    if abs(d - b) < 1e-9:
        raise Close
    return d < b


def compatible(x, y, alpha):
    if x.label != y.label:
        return False
    n1, n2 = sum(x.n.values()), sum(y.n.values())
    if n1 == 0 or n2 == 0:
        return True
    for o in sorted(set(x.n) | set(y.n)):
        if not bound_ok(x.n.get(o, 0), n1, y.n.get(o, 0), n2, alpha):
            return False
    return all(compatible(x.kids[o], y.kids[o], alpha) for o in x.kids if o in y.kids)


def fold(x, y):
    for o in y.kids:
        if o in x.kids:
            x.n[o] += y.n[o]
            fold(x.kids[o], y.kids[o])
        else:
            x.n[o], x.kids[o] = y.n[o], y.kids[o]


def learn(traces, alpha):
    root = Node("")
    for tr, m in traces:
        x = root
        for o in tr:
            if o not in x.kids:
                x.kids[o], x.n[o] = Node(o), 0
            x.n[o] += m
            x = x.kids[o]
    red, merges = [root], 0
    while True:
        blue = next(((p, o) for p in red for o in sorted(p.kids) if p.kids[o] not in red), None)
        if blue is None:
            break
        p, o = blue
        b = p.kids[o]
        for s in red:
            if compatible(s, b, alpha):
                p.kids[o] = s
                fold(s, b)
                merges += 1
                break
        else:
            red.append(b)
    return root, len(red), merges


def same(ctx, ref, start, root):
    """the model, from its initial state, against the automaton: same labels, same numbers"""
    pairs = {ref.init.index(1.0): start}
    todo = list(pairs)
    while todo:
        s = todo.pop()
        x = pairs[s]
        tot = sum(x.n.values())
        ctx.check(len(ref.P[s]) == len(x.kids), "successors of state %d" % s, ref.P[s], x.n)
        for t, p in ref.P[s].items():
            o = ref.labels[t]
            ctx.check(o in x.kids, "state %d followed by %r" % (s, o), x.n)
            ctx.close(p, x.n[o] / tot, "probability of %r after state %d" % (o, s), rel=1e-12)
            if t in pairs:
                ctx.check(pairs[t] is x.kids[o], "successor of state %d for %r: not the state it should be merged with" % (s, o))
            else:
                pairs[t] = x.kids[o]
                todo.append(t)
    ctx.check(len({id(x) for x in pairs.values()}) == len(pairs), "two states for one state of the automaton")
    ctx.check(len(pairs) == ref.n, "%d states, %d expected" % (ref.n, len(pairs)))


def fit(traces, alpha, **kw):
    return ja.Alergia().fit(mkset(traces, 0), alpha, stormpy_output=False, **kw)


def run(c, ctx):
    tr, alpha = c["traces"], c["alpha"]
    head = tr[0][0][0] == "init"
    m = fit(tr, alpha)
    if c.get("before"):
        ctx.tag("the object had learned before")
        o = ja.Alergia()
        o.fit(mkset(c["before"]["traces"], 0), c["before"]["alpha"], stormpy_output=False)
        x = snapshot(o.fit(mkset(tr, 0), alpha, stormpy_output=False))
        ctx.check(x == snapshot(m), "an object which had learned something else learns something else", x, snapshot(m))
    ref = ref_of(m)
    ctx.check(type(m).__name__ == "MC", "kind of the model")
    ctx.check(ref.init.count(1.0) == 1 and ref.labels[ref.init.index(1.0)] == "init", "initial state", ref.init, ref.labels)
    ctx.check(ref.labels.count("init") == 1, "labels", ref.labels)
    for s in range(ref.n):
        if ref.P[s]:
            ctx.close(sum(ref.P[s].values()), 1.0, "sum of row %d" % s)
        ctx.check(all(x > 0 for x in ref.P[s].values()), "negative probability", ref.P[s])
        ctx.check(len({ref.labels[t] for t in ref.P[s]}) == len(ref.P[s]), "not deterministic", ref.P[s], ref.labels)
    full = [t if head else ["init"] + t for t, _ in tr]
    for t in full:
        p = ref.prob(t)
        ctx.check(p > 0 or len(t) > 40, "a training trace is impossible", t)
    # the order of the traces
    got2 = ref_of(fit([tr[i] for i in c["order"]], alpha))
    ctx.check(got2.n == ref.n, "the order of the traces changes the number of states", got2.n, ref.n)
    seed = zlib.crc32(repr(c).encode())
    for t in full + walks_leaf(ref, seed):
        ctx.close(got2.prob(t), ref.prob(t), "the order of the traces changes the probability of %r" % (t,), rel=1e-9, abs_=1e-250)
    try:
        root, n, merges = learn(tr, alpha)
    except Close:
        ctx.tag("too close to the bound")
        return
    same(ctx, ref, root.kids["init"] if head else root, root)
    ctx.tag("merged" if merges else "no merge")
    ctx.tag("%d states" % min(n, 9))
    # without any refused test, the number of states is the number of labels
    ctx.nontrivial(merges > 0 and n > 1 + len({o for t in full for o in t}))
    if c["prism"] and all(ref.P):
        f = ctx.path("a.prism")
        fit(tr, alpha, output_file_prism=f)
        got = ref_of(load(f))
        for t in full:
            ctx.close(got.prob(t), ref.prob(t), "output_file_prism: probability of %r" % (t,), rel=1e-6, abs_=1e-250)
        ctx.tag("prism")


def walks_leaf(ref, seed):
    """random traces of ref, stopping in the states without successor"""
    import random
    rng = random.Random(seed)
    res = []
    for _ in range(5):
        s = ref.init.index(1.0)
        t = [ref.labels[s]]
        for _ in range(rng.randint(1, 7)):
            if not ref.P[s]:
                break
            s = rng.choice(sorted(ref.P[s]))
            t.append(ref.labels[s])
        res.append(t)
    return res


def gen_bigram(r):
    labs = LAB[:r.int(1, 4)]
    head = r.chance(1, 2)
    tr = [([] if not head else ["init"]) + [r.pick(labs) for _ in range(r.int(1, 7))] for _ in range(r.int(1, 12))]
    return dict(traces=bag(r, tr, False))


def run_bigram(c, ctx):
    """everything is compatible: maximum-likelihood bigrams"""
    tr = c["traces"]
    full = [(t if t[0] == "init" else ["init"] + t, x) for t, x in tr]
    m = fit(tr, 1e-300)
    ref = ref_of(m)
    cnt = {}
    for t, x in full:
        for p, q in zip(t, t[1:]):
            d = cnt.setdefault(p, {})
            d[q] = d.get(q, 0) + x
    tot = sum(x for t, x in full)
    ctx.check(sorted(ref.labels) == sorted({o for t, _ in full for o in t}), "one state per label", ref.labels)
    for s in range(ref.n):
        d = cnt.get(ref.labels[s], {})
        ctx.check({ref.labels[t] for t in ref.P[s]} == set(d), "successors of %r" % ref.labels[s], ref.P[s], d)
        for t, p in ref.P[s].items():
            ctx.close(p, d[ref.labels[t]] / sum(d.values()), "%r after %r" % (ref.labels[t], ref.labels[s]), rel=1e-12)
    ctx.tag("%d traces" % min(tot, 9))
    ctx.nontrivial(len(cnt) > 2)


# ------------------------------------------------------------------ traces longer than the recursion limit of Python
def gen_long(r, acts=None):
    labs = LAB[:r.int(1, 3)]
    word = [r.pick(labs) for _ in range(r.int(1, 5))]
    return dict(word=word, acts=acts and [r.pick(acts) for _ in range(r.int(1, 4))], labs=labs, acts_all=acts, n=r.int(1000, 1600),
                noise=[r.int(0, 1599) for _ in range(r.int(0, 12))], short=r.int(0, 3), mult=r.int(1, 50),
                alpha=r.pick(ALPHA[:6]))


def expand(c):
    """the word repeated, some of its labels replaced; prefixes of it"""
    t = [c["word"][i % len(c["word"])] for i in range(c["n"])]
    for i, x in enumerate(c["noise"]):
        if x < len(t):
            t[x] = c["labs"][i % len(c["labs"])]
    if c["acts"]:
        t = [y for i, x in enumerate(t) for y in (c["acts"][i % len(c["acts"])], x)]
    k = 2 if c["acts"] else 1
    return [[["init"] + t, 1]] + [[["init"] + t[:k * (i * i + 1)], c["mult"] + i] for i in range(c["short"])]


def deep(f, *a):
    """calls f (the reference is recursive) with a larger recursion limit"""
    import sys
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(30000)
    try:
        return f(*a)
    finally:
        sys.setrecursionlimit(old)


def run_long(c, ctx):
    tr = expand(c)
    ref = ref_of(fit(tr, c["alpha"]))
    try:
        root, n, merges = deep(learn, tr, c["alpha"])
    except Close:
        ctx.tag("too close to the bound")
        return
    same(ctx, ref, root.kids["init"], root)
    ctx.tag("%d states" % min(n, 9))
    ctx.nontrivial(merges > 0 and len(set(c["word"])) > 1)


SUBS = [
    Sub("long", gen_long, run_long, 60, 600,
        "traces of 1000-1600 labels (periodic with exceptions) and some of their prefixes against the reference; "
        "non-trivial: several labels, something was merged"),
    Sub("fit", gen_case, run, 12000, 150000,
        "random sets of traces (of small automata, with small and large multiplicities) and alpha against a reference "
        "ALERGIA; determinism, possible training traces, other order; non-trivial: something was merged and two states "
        "with the same label were kept"),
    Sub("bigram", gen_bigram, run_bigram, 1500, 20000,
        "alpha=1e-300: bigram frequencies; non-trivial: at least three labels with successors"),
]
