"""C02: random models are valid, have the requested shape and are reproducible."""
import random
import gen
from build import Sub, snapshot, is_prob_row
import jajapy as ja


def gen_case(r):
    k = r.pick(["MC", "MDP", "CTMC", "HMM", "GOHMM"])
    n = gen.size(r, 1, 6, 25)
    c = dict(kind=k, n=n, rinit=r.chance(1, 2), seed=r.pick([None, 0, 1, r.int(2, 10 ** 6)]))
    if r.chance(1, 4):
        c["default_init"] = True
    pool = gen.LABELS[:r.int(1, 8)]
    if k != "GOHMM":
        lab = r.shuffle(pool)
        if r.chance(1, 5) and k in ("MC", "CTMC", "MDP"):
            lab = lab + [r.pick(lab)]
        c["labels"] = lab
    if k == "MDP":
        c["actions"] = r.sample(gen.ACTIONS, r.int(1, 12))
        c["det"] = r.chance(1, 2) and len(c["labels"]) <= n
    if k == "CTMC":
        c["min"] = r.int(1, 8)
        c["max"] = c["min"] + r.int(0, 6)
        c["loop"] = r.chance(1, 2) or n == 1
    if k == "GOHMM":
        c["d"] = r.int(1, 4)
        k = r.pick([10, 10, 100, 1000])
        c["mu"] = sorted([r.int(-50, 50) / k, r.int(-50, 50) / k])
        k = r.pick([10, 10, 100, 1000])
        c["sg"] = sorted([r.int(1, 40) / k, r.int(1, 40) / k])
    return c


def make(c, seed):
    kw = {} if c.get("default_init") else dict(random_initial_state=c["rinit"])
    if seed is not None:
        kw["sseed"] = seed
    k = c["kind"]
    if k == "MC":
        return ja.MC_random(c["n"], list(c["labels"]), **kw)
    if k == "MDP":
        return ja.MDP_random(c["n"], list(c["labels"]), list(c["actions"]), deterministic=c["det"], **kw)
    if k == "CTMC":
        return ja.CTMC_random(c["n"], list(c["labels"]), c["min"], c["max"], self_loop=c["loop"], **kw)
    if k == "HMM":
        return ja.HMM_random(c["n"], list(c["labels"]), **kw)
    return ja.GoHMM_random(c["n"], c["d"], min_mu=c["mu"][0], max_mu=c["mu"][1], min_sigma=c["sg"][0],
                           max_sigma=c["sg"][1], **kw)


def run(c, ctx):
    k, n = c["kind"], c["n"]
    m = make(c, c["seed"])
    ctx.tag(k)
    ctx.nontrivial(n > 1)
    labelled = k in ("MC", "MDP", "CTMC")
    N = n + 1 if labelled else n
    ctx.check(m.nb_states == N, "number of states %r, requested %d" % (m.nb_states, n))
    ini = [float(m.pi(i)) for i in range(N)]
    rinit = c["rinit"]
    if c.get("default_init"):
        rinit = labelled  # default value of the argument
    if labelled:
        ctx.check(ini == [0.0] * n + [1.0], "initial state is the last one", ini)
        lab = [m.getLabel(i) for i in range(N)]
        ctx.check(lab[-1] == "init" and "init" not in lab[:-1], "labels", lab)
        ctx.check(set(lab[:-1]) <= set(c["labels"]), "labels out of the alphabet", lab)
        if n >= len(c["labels"]):
            ctx.check(set(lab[:-1]) == set(c["labels"]), "labels not used", lab, c["labels"])
        else:
            ctx.check(all(x in lab for x in c["labels"][:n]), "first labels not used", lab)
    else:
        is_prob_row(ctx, ini, "initial distribution")
    first = ini
    if k == "MC":
        rows = [[float(m.a(i, j)) for j in range(N)] for i in range(N)]
        for i in range(N):
            is_prob_row(ctx, rows[i], "row %d" % i)
            ctx.check(rows[i][-1] == 0.0, "a transition leads to the initial state")
        first = rows[-1]
    elif k == "MDP":
        ctx.check(sorted(m.getActions()) == sorted(c["actions"]), "actions", m.getActions())
        for a in c["actions"]:
            for i in range(N):
                row = [float(m.a(i, j, a)) for j in range(N)]
                is_prob_row(ctx, row, "row %d action %s" % (i, a))
                ctx.check(row[-1] == 0.0, "a transition leads to the initial state")
                if c["det"] and i < n:
                    succ = [lab[j] for j in range(N) if row[j] > 0]
                    ctx.check(len(succ) == len(set(succ)), "several successors with the same label", i, a, succ)
                if i == n:
                    first = row
    elif k == "CTMC":
        for i in range(N):
            row = [float(m.l(i, j, lab[i])) for j in range(N)]
            ctx.check(row[-1] == 0.0, "a transition leads to the initial state")
            ctx.check(min(row) >= 0.0, "negative rate", row)
            if i == n:
                first = row
                is_prob_row(ctx, row, "initial row")
                continue
            e = sum(row)
            ctx.check(e > 0, "absorbing state")
            t = 1 / e
            ctx.check(abs(t - round(t)) < 1e-6 and c["min"] <= round(t) <= c["max"],
                      "expected time %r of state %d not an integer in [%d,%d]" % (t, i, c["min"], c["max"]))
            ctx.close(float(m.e(i)), e, "e(%d)" % i)
            if not c["loop"]:
                ctx.check(row[i] == 0.0, "self loop")
    else:
        for i in range(n):
            is_prob_row(ctx, [float(m.a(i, j)) for j in range(n)], "row %d" % i)
        if k == "HMM":
            ctx.check(sorted(m.getAlphabet()) == sorted(c["labels"]), "alphabet", m.getAlphabet())
            for i in range(n):
                is_prob_row(ctx, [float(m.b(i, o)) for o in c["labels"]], "emissions of %d" % i)
        else:
            ctx.check(m.nb_distributions == c["d"], "nb_distributions")
            for i in range(n):
                ctx.check(len(m.mu(i)) == c["d"], "number of means")
                for d in range(c["d"]):
                    mu, sg = (float(x) for x in m.output[i][d])
                    ctx.check(mu == float(m.mu_n(i, d)), "mu_n")
                    ctx.check(c["mu"][0] - 5.1e-4 <= mu <= c["mu"][1] + 5.1e-4, "mean out of bounds", mu, c["mu"])
                    ctx.check(c["sg"][0] - 5.1e-4 <= sg <= c["sg"][1] + 5.1e-4, "deviation out of bounds", sg, c["sg"])
    if not rinit:
        ctx.check(first[0] == 1.0, "does not start in state 0", first)
    if c["seed"] is not None:
        one = snapshot(m)
        random.random()
        make(dict(c, n=c["n"] + 1, loop=True), None)
        two = snapshot(make(c, c["seed"]))
        ctx.check(one == two, "same seed, different models", one, two)
        # a run of the model still works, i.e. the generator is usable afterwards
        random.random()


def gen_cross(r):
    c = gen_case(r)
    c["seed"] = r.int(0, 1000)
    return c


def run_cross(c, ctx):
    """the same in another interpreter (other hash seed)"""
    import json, os, subprocess, sys
    ctx.nontrivial(c["n"] > 1)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    code = ("import sys; sys.path.insert(0,%r); import env; env.setup('multi'); import types; "
            "sys.modules['shard']=types.SimpleNamespace(Violation=AssertionError); "
            "from props import c02; import json, os; from build import snapshot; "
            "c=json.loads(sys.argv[1]); r=[snapshot(c02.make(x, x['seed'])) for x in c]; "
            "open(sys.argv[2],'w').write(json.dumps(r))" % here)
    cases = [c] + [dict(c, kind=k, labels=c.get("labels", ["a", "b", "c"]), actions=c.get("actions", ["u", "v"]),
                        det=det, min=1, max=5, loop=True, d=2, mu=[0.0, 2.0], sg=[0.5, 1.0], n=max(c["n"], 9))
                   for k in ("MC", "MDP", "CTMC", "HMM", "GOHMM") for det in ((True, False) if k == "MDP" else (False,))]
    res = []
    for h in ("11", "42"):
        out = ctx.path("o" + h)
        p = subprocess.run([sys.executable, "-c", code, json.dumps(cases), out], env=dict(os.environ, PYTHONHASHSEED=h),
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        ctx.check(p.returncode == 0, "subprocess: " + p.stderr.decode()[-1500:])
        res.append(json.load(open(out)))
    for a, b, x in zip(res[0], res[1], cases):
        ctx.check(a == b, "same seed, different models in different interpreters", x, a, b)


SUBS = [
    Sub("random", gen_case, run, 4000, 60000,
        "random size (1-25 states), alphabet, options and seed for the five *_random functions; "
        "non-trivial: several states"),
    Sub("interpreters", gen_cross, run_cross, 4, 16, "one batch of seeded calls compared between two interpreters with "
        "different hash seeds; non-trivial: several states", mode="multi"),
]
