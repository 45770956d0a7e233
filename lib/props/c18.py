"""C18: a Set is a multiset of traces."""
from collections import Counter
import numpy as np
import gen
from build import Sub
import jajapy as ja

LAB = ["a", "b", "init", "it's", "x, y", 'q"', "é", "1"]
ACT = ["A", "B", "'"]


def trace(r, t, short=False, d=2):
    n = r.int(1, 3 if short else 6)
    lab = LAB[:r.pick([2, 2, 3, 8])]
    if t == 0:
        return [r.pick(lab) for _ in range(n)]
    if t == 1:
        tr = [r.pick(lab)]
        for _ in range(n - 1):
            tr += [r.pick(ACT[:2] if r.chance(4, 5) else ACT), r.pick(lab)]
        return tr
    if t == 3:
        return [[r.int(-2, 2) / 4, r.int(0, 1) * 1.5][:d] for _ in range(n)]
    tr = [r.pick(lab)]
    for _ in range(n - 1):
        tr += [r.pick([0.5, 1.0, 0.1, 1 / 3, 2.25, 1e-20]), r.pick(lab)]
    return tr


def bag(r, t, lo=1, hi=6, d=2, big=False):
    """[[trace, multiplicity]], distinct traces"""
    res = []
    for _ in range(r.int(lo, hi)):
        x = trace(r, t, r.chance(2, 3), d)
        if all(x != y for y, _ in res):
            res.append([x, r.int(1, 4) if not big or not r.chance(1, 20) else r.pick([300, 12345, 70000])])
    return res


def many(r, t, d):
    """a list of more than 100 distinct traces, some of which several times"""
    res = [trace(r, t, False, d) for _ in range(r.int(110, 260))]
    return res + [list(r.pick(res)) for _ in range(r.int(1, 20))]


def expand(r, b):
    return r.shuffle([x for x, m in b for _ in range(m)])


OPS = ["list", "mult", "add", "add", "add", "sort", "to_list", "saveload", "equal", "equal", "query", "addself", "empty",
       "other_type", "shuffled"]


def gen_history(r):
    t = r.pick([0, 1, 3, 4])
    d = r.pick([1, 2])
    ops = []
    for _ in range(r.int(2, 12)):
        o = r.pick(OPS)
        op = dict(op=o, i=r.int(0, 9), j=r.int(0, 9))
        if o == "list":
            op["seqs"] = expand(r, bag(r, t, d=d)) if not r.chance(1, 60) else many(r, t, d)
        elif o in ("mult", "shuffled"):
            op["bag"] = bag(r, t, d=d, big=True)
            op["np"] = r.chance(1, 3)
        elif o == "other_type":
            op["t"] = r.pick([x for x in (0, 1, 3, 4) if x != t])
            op["bag"] = bag(r, op["t"], hi=2)
        ops.append(op)
    first = dict(op="list", i=0, j=0, seqs=expand(r, bag(r, t, d=d)))
    return dict(t=t, auto=t in (0, 3) or (t == 4 and r.chance(1, 2)), ops=[first] + ops)


def key(x):
    return repr([list(map(float, y)) if isinstance(y, (list, tuple)) else float(y) if isinstance(y, float) else y for y in x])


def contents(ctx, s):
    ctx.check(len(s.sequences) == len(s.times), "sequences and times differ in length")
    c = Counter()
    for x, m in zip(s.sequences, s.times):
        ctx.check(key(x) not in c, "trace stored twice", x)
        ctx.check(int(m) == m and m > 0, "multiplicity %r" % m)
        c[key(x)] += int(m)
    return c


def alphabet(t, model):
    if t == 3:
        return set(), set()
    seqs = [eval(k) for k in model]
    step = 1 if t == 0 else 2
    return {o for x in seqs for o in x[::step]}, ({a for x in seqs for a in x[1::2]} if t == 1 else set())


def run(case, ctx):
    t = case["t"]
    pool, models = [], []          # jajapy Sets and their multisets

    def new(seqs, times=None):
        auto = case["auto"] and not (t == 4 and all(len(x) == 1 for x in seqs)) and seqs
        s = ja.Set(seqs, times) if auto else ja.Set(seqs, times, t)
        ctx.check(s.type == t, "type %r instead of %d" % (s.type, t), seqs)
        return s

    def check_all(msg):
        for k, (s, m) in enumerate(zip(pool, models)):
            ctx.check(s.type == t, "%s: type of set %d" % (msg, k))
            ctx.check(contents(ctx, s) == m, "%s: contents of set %d" % (msg, k), contents(ctx, s), m)
    for op in case["ops"]:
        o = op["op"]
        ctx.tag(o)
        n = len(pool)
        if o == "list":
            given = [list(x) for x in op["seqs"]]
            s = new(given)
            ctx.check(given == op["seqs"], "building a Set changed the list")
            given.append(["zzz"])
            pool.append(s)
            models.append(Counter(key(x) for x in op["seqs"]))
        elif o == "mult":
            seqs = [list(x) for x, _ in op["bag"]]
            times = [m for _, m in op["bag"]]
            if op["np"]:
                times = np.array(times)
            s = new(seqs, times)
            pool.append(s)
            models.append(Counter({key(x): m for x, m in op["bag"]}))
            seqs.append(["zzz"])
            times[0] += 5
        elif o == "empty":
            pool.append(ja.Set([], [], t))
            models.append(Counter())
        elif o == "add":
            a, b = op["i"] % n, op["j"] % n
            if a != b:
                pool[a].addSet(pool[b])
                models[a] = models[a] + models[b]
        elif o == "addself":
            a = op["i"] % n
            b = ja.Set([list(x) for x in pool[a].sequences], list(pool[a].times), t)
            pool[a].addSet(b)
            models[a] = models[a] + models[a]
        elif o == "sort":
            a = op["i"] % n
            pool[a].sort()
            ctx.check(list(pool[a].sequences) == sorted(pool[a].sequences), "sort: not sorted", pool[a].sequences)
        elif o == "to_list":
            a = op["i"] % n
            lst = pool[a].to_list()
            ctx.check(Counter(map(key, lst)) == models[a], "to_list", lst, models[a])
            lst.append(["zzz"])
            if len(lst) > 1:
                pool.append(new([list(x) for x in lst[:-1]]))
                models.append(Counter(models[a]))
        elif o == "saveload":
            a = op["i"] % n
            f = ctx.path("set.txt")
            pool[a].save(f)
            s = ja.loadSet(f)
            ctx.check(pool[a].isEqual(s) and s.isEqual(pool[a]), "a loaded Set is not equal to the saved one")
            pool.append(s)
            models.append(Counter(models[a]))
        elif o == "equal":
            a, b = op["i"] % n, op["j"] % n
            want = models[a] == models[b]
            got = pool[a].isEqual(pool[b])
            ctx.check(bool(got) == want, "isEqual answers %r" % got, models[a], models[b])
            ctx.tag("equal" if want else "different")
        elif o == "shuffled":
            a = op["i"] % n
            if models[a]:
                seqs = [list(x) for x in pool[a].sequences][::-1]
                times = [int(x) for x in pool[a].times][::-1]
                s = new(seqs, times)
                ctx.check(pool[a].isEqual(s) and s.isEqual(pool[a]), "the order of the traces changes isEqual")
                times[op["j"] % len(times)] += 1
                other = new([list(x) for x in seqs], times)
                ctx.check(not pool[a].isEqual(other) and not other.isEqual(pool[a]), "isEqual ignores the multiplicities")
                if len(times) > 1:     # the same traces, the same total
                    j = op["j"] % len(times)
                    times[(j + 1) % len(times)] += 1
                    times[j] += 1
                    times2 = list(times)
                    times2[j] += 1
                    times[(j + 1) % len(times)] += 1
                    x, y = new([list(z) for z in seqs], times), new([list(z) for z in seqs], times2)
                    ctx.check(not x.isEqual(y), "isEqual only compares the total multiplicity")
                    # the same multiplicities, another trace
                    z = new([list(q) for q in seqs[:-1]] + [list(seqs[-1]) * 2 if t != 4 else ["other"]], list(times2))
                    if key(z.sequences[-1]) not in map(key, seqs):
                        ctx.check(not z.isEqual(y) and not y.isEqual(z), "isEqual ignores a trace")
        elif o == "query":
            a = op["i"] % n
            obs, acts = alphabet(t, models[a])
            got = pool[a].getAlphabet()
            ctx.check(len(got) == len(set(got)) and set(got) == obs, "getAlphabet", got, obs)
            if t == 1:
                x = pool[a].getActionsObservations()
                ctx.check(set(x[0]) == acts and set(x[1]) == obs, "getActionsObservations", x, acts, obs)
                ctx.check(len(x[0]) == len(acts) and len(x[1]) == len(obs), "repetitions in getActionsObservations", x)
        elif o == "other_type":
            a = op["i"] % n
            s = ja.Set([list(x) for x, _ in op["bag"]], [m for _, m in op["bag"]], op["t"])
            ctx.raises(Exception, lambda: pool[a].addSet(s), "addSet of another type")
            ctx.raises(Exception, lambda: s.addSet(pool[a]), "addSet of another type")
            ctx.check(contents(ctx, s) == Counter({key(x): m for x, m in op["bag"]}), "refused addSet changed the Set")
            ctx.check(not s.isEqual(pool[a]) and not pool[a].isEqual(s), "isEqual with another type")
            # the same traces with another type
            if models[a]:
                u = ja.Set([list(x) for x in pool[a].sequences], list(pool[a].times), op["t"])
                ctx.check(not u.isEqual(pool[a]) and not pool[a].isEqual(u), "isEqual ignores the type")
        check_all(o)
    ctx.nontrivial(len(pool) > 1 and len(case["ops"]) > 3)


SUBS = [
    Sub("history", gen_history, run, 8000, 120000,
        "random histories of up to 13 operations on a pool of Sets of one type against multisets; non-trivial: several "
        "Sets and operations"),
]
