"""C08: schedulers choose the actions they define."""
from collections import Counter
import gen
from build import Sub, build_any
from ref import Ref
from props.c07 import test_freq
import jajapy as ja


def gen_fm(r, actions, labels, full):
    K = r.int(1, 4) if not r.chance(1, 4) else r.int(5, 12)
    am = []
    for _ in range(K):
        if full:
            acts = r.shuffle(actions)
        else:
            acts = r.sample(actions, r.int(1, len(actions)))
        w = [r.int(1, 6) for _ in acts]
        if not full and len(acts) > 1 and r.chance(1, 4):
            w[r.int(0, len(w) - 1)] = 0
        am.append([[x / sum(w) for x in w], acts])
    obs = [o for o in labels if not r.chance(1, 4)]
    if r.chance(2, 3):
        obs = obs + ["init"]
    tm = {o: [r.int(0, K - 1) for _ in range(K)] for o in obs}
    return dict(am=am, tm=tm, how=r.pick(["list", "dict"]))


def fm(c):
    am = c["am"] if c["how"] == "list" else {i: x for i, x in enumerate(c["am"])}
    return ja.FiniteMemoryScheduler(am, c["tm"])


# ------------------------------------------------------------------ the object alone, any history
def gen_hist(r):
    acts = r.shuffle(gen.ACTIONS[:r.int(1, 5)])
    labs = gen.LABELS[:r.int(1, 5)]
    ops = []
    for _ in range(r.int(1, 25)):
        o = r.int(0, 9)
        if o <= 4:
            ops.append(["obs", r.pick(labs + ["init", "unknown"])])
        elif o == 5:
            ops.append(["reset"])
        elif o == 6:
            ops.append(["actions", r.int(0, 11)])
        elif o == 7:
            ops.append(["prob", r.pick(acts + ["other"]), r.int(0, 11)])
        elif o == 8:
            ops.append(["seq", [r.pick(labs + ["unknown"]) for _ in range(r.int(0, 6))]])
        else:
            ops.append(["draw"])
    return dict(s=gen_fm(r, acts, labs, False), ops=ops)


def step(tm, mem, o):
    return tm[o][mem] if o in tm else mem


def run_hist(case, ctx):
    am, tm = case["s"]["am"], case["s"]["tm"]
    K = len(am)
    s = fm(case["s"])
    mem, moved = 0, 0

    def norm(x):
        return [[float(p) for p in x[0]], list(x[1])]
    for op in case["ops"]:
        if op[0] == "obs":
            s.addObservation(op[1])
            new = step(tm, mem, op[1])
            moved += new != mem
            mem = new
        elif op[0] == "reset":
            s.reset()
            mem = 0
        elif op[0] == "actions":
            i = op[1] % K
            ctx.check(norm(s.getActions(i)) == am[i], "getActions(%d)" % i, s.getActions(i), am[i])
        elif op[0] == "prob":
            i = op[2] % K
            want = am[i][0][am[i][1].index(op[1])] if op[1] in am[i][1] else 0.0
            ctx.close(float(s.getProbability(op[1], i)), want, "getProbability(%s,%d)" % (op[1], i))
        elif op[0] == "seq":
            got = list(s.getSequenceStates(list(op[1])))
            want = [0]
            for o in op[1]:
                want.append(step(tm, want[-1], o))
            ctx.check(got == want, "getSequenceStates", got, want)
            s.reset()
            mem = 0
        else:
            probs = {a: p for p, a in zip(*am[mem]) if p > 0}
            test_freq(ctx, Counter(s.getAction() for _ in range(400)), probs, "getAction in memory state %d" % mem)
        ctx.check(norm(s.getActions()) == am[mem], "getActions()", s.getActions(), am[mem])
        a = s.getAction()
        ctx.check(a in [x for p, x in zip(*am[mem]) if p > 0], "getAction in memory state %d" % mem, a, am[mem])
        for a in am[mem][1] + ["other"]:
            want = am[mem][0][am[mem][1].index(a)] if a in am[mem][1] else 0.0
            ctx.close(float(s.getProbability(a)), want, "getProbability(%s)" % a)
    ctx.nontrivial(moved > 0)


# ------------------------------------------------------------------ within runs
def gen_runs(r):
    n = r.int(2, 5)
    kind = r.pick(["uniform", "memoryless", "finite", "finite"])
    hole = kind != "finite" or r.chance(1, 2)
    m = gen.mdp(r, n=n, nact=r.int(2, 4), missing=hole, tiny=False)
    m["labels"] = r.shuffle(gen.LABELS[:n]) if not r.chance(1, 4) else gen.labels(r, n)
    c = dict(model=m, kind=kind, steps=[r.int(9, 25) if r.chance(1, 6) else r.int(1, 8) for _ in range(r.int(1, 3))], N=r.int(20, 120),
             how=r.pick(["run", "set", "from"]), start=r.int(0, n - 1))
    if r.chance(1, 3):
        c["order"] = r.shuffle(range(n + 1))
    if kind == "memoryless":
        c["sched"] = [m["actions"][r.pick([i for i, x in enumerate(rows) if x is not None])] for rows in m["P"]] + \
            [r.pick(m["actions"])]
    elif kind == "finite":
        c["sched"] = gen_fm(r, m["actions"], m["labels"], hole)
    return c


def run_runs(case, ctx):
    spec = case["model"]
    ref = Ref(spec)
    m = build_any(case)
    kind = case["kind"]
    order = case.get("order") or list(range(ref.n))
    unique = len(set(spec["labels"])) == spec["n"]
    if kind == "uniform":
        s = ja.UniformScheduler(list(spec["actions"]))
    elif kind == "memoryless":
        s = ja.MemorylessScheduler([case["sched"][i] for i in order])
    else:
        s = fm(case["sched"])
    ctx.tag(kind)
    if case["how"] == "run":
        trs = [(m.run(n, s), 1) for n in case["steps"] for _ in range(case["N"])]
    elif case["how"] == "from":              # from a given state: the memory starts in 0 all the same
        trs = [(m.run(n, s, order.index(case["start"])), 1) for n in case["steps"] for _ in range(case["N"])]
        ctx.check(all(t[0] == spec["labels"][case["start"]] for t, _ in trs), "run from a given state starts elsewhere")
    else:
        trs = []
        for n in case["steps"]:
            t = m.generateSet(case["N"], n, s)
            trs += list(zip(t.sequences, [int(x) for x in t.times]))
    counts = {}
    for tr, c in trs:
        mem = 0
        for o, a in zip(tr[0::2], tr[1::2]):
            if kind == "memoryless":
                ok = {case["sched"][i] for i in range(ref.n) if ref.labels[i] == o}
                ctx.check(a in ok, "memoryless scheduler: action %r executed with label %r" % (a, o), ok)
            elif unique:
                counts.setdefault((mem, ref.labels.index(o)), Counter())[a] += c
            elif kind == "finite":
                ok = [x for p, x in zip(*case["sched"]["am"][mem]) if p > 0]
                ctx.check(a in ok, "finite-memory scheduler: action %r in memory state %d" % (a, mem), ok)
            if kind == "finite":
                mem = step(case["sched"]["tm"], mem, o)
    ctx.nontrivial(kind == "memoryless" or any(len(x) > 1 for x in counts.values()))
    for (mem, st), cnt in counts.items():
        if kind == "uniform":
            p = {a: 1.0 for a in spec["actions"]}
        else:
            p = {a: x for x, a in zip(*case["sched"]["am"][mem]) if x > 0}
        p = {a: x for a, x in p.items() if a in ref.P[st]}
        tot = sum(p.values())
        test_freq(ctx, cnt, {a: x / tot for a, x in p.items()}, "%s scheduler, memory %d, state %d" % (kind, mem, st))


def gen_uniform(r):
    return dict(actions=r.shuffle(gen.ACTIONS[:r.int(1, 12)]))


def run_uniform(case, ctx):
    acts = case["actions"]
    s = ja.UniformScheduler(list(acts))
    ctx.nontrivial(len(acts) > 1)
    cnt = Counter()
    for i in range(3000):
        cnt[s.getAction()] += 1
        if i % 7 == 0:
            s.addObservation("x")
        if i % 11 == 0:
            s.reset()
    test_freq(ctx, cnt, {a: 1 / len(acts) for a in acts}, "uniform scheduler")


SUBS = [
    Sub("histories", gen_hist, run_hist, 5000, 30000,
        "random finite-memory scheduler (1-4 states) driven through 1-25 observations, resets and queries, compared "
        "with its tables after every operation; non-trivial: the memory state changed"),
    Sub("runs", gen_runs, run_runs, 2200, 12000,
        "uniform, memoryless and finite-memory schedulers simulating MDPs with missing actions, several runs with the "
        "same scheduler object; support and exact binomial tests of the frequencies per memory state and state; "
        "non-trivial: several actions seen in one state"),
    Sub("uniform", gen_uniform, run_uniform, 100, 1000, "3000 choices among 1-12 actions; non-trivial: 2 or more"),
]
