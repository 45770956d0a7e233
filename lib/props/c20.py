"""C20: Storm sees the same model."""
import math
import numpy as np
import stormpy as st
import gen
from build import Sub, build, build_any, snapshot
from ref import Ref, ev
from props.c16 import ref_of
from props.c19 import same_behaviour, pref, ctmc
from jajapy.with_stormpy import jajapyModeltoStormpy, stormpyModeltoJajapy

TOL = 2e-5


# ------------------------------------------------------------------ reference solver, over rows {action: {s': p}}
def rows_of(ref):
    if ref.kind == "MDP":
        return [{a: dict(x) for a, x in row.items() if x} for row in ref.P]
    return [{None: dict(ref.jump(s))} for s in range(ref.n)]


def bounded(rows, ok, goal, k, best):
    """probability of reaching goal within k steps through ok states"""
    v = [1.0 if g else 0.0 for g in goal]
    for _ in range(k):
        v = [1.0 if goal[s] else (best(sum(p * v[t] for t, p in x.items()) for x in rows[s].values()) if ok[s] else 0.0)
             for s in range(len(rows))]
    return v


def unbounded(rows, ok, goal, best):
    v = [1.0 if g else 0.0 for g in goal]
    n = len(rows)
    if best is max or all(len(x) == 1 for x in rows):
        pos = set(i for i in range(n) if goal[i])
        while True:
            new = {s for s in range(n) if s not in pos and ok[s] and any(set(x) & pos for x in rows[s].values())}
            if not new:
                break
            pos |= new
    for _ in range(200000):
        w = [1.0 if goal[s] else (best(sum(p * v[t] for t, p in x.items()) for x in rows[s].values()) if ok[s] else 0.0)
             for s in range(n)]
        d = max(abs(a - b) for a, b in zip(v, w))
        v = w
        if d < 1e-13:
            return v
    return None


def time_bounded(ref, ok, goal, t):
    """uniformisation"""
    n = ref.n
    q = max([ref.exit(s) for s in range(n)] + [1e-9])
    v = [1.0 if goal[s] else 0.0 for s in range(n)]
    res = [0.0] * n
    a = q * t
    k, logw, acc = 0, -a, 0.0
    while acc < 1 - 1e-13 and k < a + 50 * math.sqrt(a) + 100:
        w = math.exp(logw)
        acc += w
        res = [x + w * y for x, y in zip(res, v)]
        v = [1.0 if goal[s] else (sum(r / q * v[j] for j, r in ref.P[s].items()) + (1 - ref.exit(s) / q) * v[s] if ok[s] else 0.0)
             for s in range(n)]
        k += 1
        logw += math.log(a) - math.log(k)
    return [1.0 if goal[s] else min(1.0, x) for s, x in enumerate(res)]


ENV = st.Environment()
ENV.solver_environment.set_force_sound()      # the default value iteration may stop far from the solution


def storm(ctx, model, formula):
    r = st.model_checking(model, st.parse_properties(formula)[0], only_initial_states=False, environment=ENV)
    return [r.at(s) for s in range(model.nr_states)]


def gen_case(r, kinds=("MC", "MC", "MDP", "MDP", "MDP", "CTMC", "CTMC", "PCTMC")):
    k = r.pick(kinds)
    kw = dict(tiny=False) if k in ("MC", "MDP") else {}
    m = gen.ANY[k](r, lo=1, hi=5, big=9, **kw)
    alpha = sorted(set(m["labels"])) + ["init"]
    c = dict(model=m, timed=False, traces=gen.traces(r, m, nmax=4, lmax=6) if k != "PCTMC" else [],
             goal=r.pick(alpha[:-1]), avoid=r.pick(alpha), k=r.int(0, 6), t=r.pick([0.1, 0.5, 1.0, 2.5, 0.01]) * min(1.0, m.get("unit", 1.0)))
    if k == "CTMC":
        c["timed_traces"] = gen.traces(r, m, nmax=3, lmax=6, timed=True)
    if k != "PCTMC" and r.chance(1, 3):
        c["order"] = r.shuffle(range(m["n"] + 1))
    return c


def structure(ctx, m, s, k):
    """labels, initial state, transitions of the Storm model s"""
    n = m.nb_states
    ctx.check(s.nr_states == n, "number of states")
    want = dict(MC="SparseDtmc", MDP="SparseMdp", CTMC="SparseCtmc", PCTMC="SparseCtmc")[k]
    ctx.check(type(s).__name__ == want, "type of the Storm model: %s" % type(s).__name__)
    for i in range(n):
        ctx.check(set(s.states[i].labels) == {m.getLabel(i)}, "labels of state %d" % i, s.states[i].labels, m.getLabel(i))
    ctx.check(list(s.initial_states) == [i for i in range(n) if m.getLabel(i) == "init"], "initial states")


def run(case, ctx):
    spec = case["model"]
    k = spec["kind"]
    m = build_any(case)
    before = snapshot(m)
    s = m.toStormpy() if k != "PCTMC" and case["k"] % 2 else jajapyModeltoStormpy(m)
    ctx.check(snapshot(m) == before, "the conversion changed the model")
    structure(ctx, m, s, k)
    ref = ctmc(Ref(spec)) if k == "PCTMC" else Ref(spec)
    n = ref.n
    order = case.get("order") or list(range(n))          # order[i]: state of the description of state i
    rows = rows_of(ref)
    g, av = case["goal"], case["avoid"]
    goal = [x == g for x in ref.labels]
    ok = [x != av for x in ref.labels]
    ctx.tag(k)

    def cmp(formula, want, tol=TOL):
        if want is None:
            return
        got = storm(ctx, s, formula)
        for i in range(n):
            w = want[order[i]]
            ctx.check(abs(got[i] - w) <= tol, "%s in state %d (%s): Storm says %r, the model %r" %
                      (formula, i, ref.labels[order[i]], got[i], w))
        if any(0.001 < x < 0.999 for x in want):
            ctx.nontrivial()
    one = [True] * n
    if k == "MDP":
        for q, best in (("max", max), ("min", min)):
            cmp('P%s=? [F "%s"]' % (q, g), unbounded(rows, one, goal, best))
            cmp('P%s=? [!"%s" U "%s"]' % (q, av, g), unbounded(rows, ok, goal, best))
            cmp('P%s=? [F<=%d "%s"]' % (q, case["k"], g), bounded(rows, one, goal, case["k"], best), 1e-9)
            cmp('P%s=? [X "%s"]' % (q, g), [best(sum(p for t, p in x.items() if goal[t]) for x in rows[i].values()) for i in range(n)], 1e-9)
        # choices
        for i in range(n):
            acts = sorted(tuple(a.labels)[0] for a in s.states[i].actions)
            ctx.check(acts == sorted(rows[order[i]]), "actions of state %d in Storm" % i, acts, sorted(rows[order[i]]))
            for a in s.states[i].actions:
                name = tuple(a.labels)[0]
                row = {t.column: t.value() for t in a.transitions if t.value() != 0}
                want = {order.index(t): p for t, p in rows[order[i]][name].items()}
                ctx.check(set(row) == set(want) and all(abs(row[t] - want[t]) < 1e-12 for t in row), "transitions of %d, %s" % (i, name), row, want)
    else:
        cmp('P=? [F "%s"]' % g, unbounded(rows, one, goal, max))
        cmp('P=? [!"%s" U "%s"]' % (av, g), unbounded(rows, ok, goal, max))
        # an absorbing state of a CTMC has no next state
        cmp('P=? [X "%s"]' % g, [sum(p for t, p in rows[i][None].items() if goal[t]) if ref.P[i] else 0.0 for i in range(n)], 1e-6)
        if k == "MC":
            cmp('P=? [F<=%d "%s"]' % (case["k"], g), bounded(rows, one, goal, case["k"], max), 1e-9)
            cmp('P=? [!"%s" U<=%d "%s"]' % (av, case["k"], g), bounded(rows, ok, goal, case["k"], max), 1e-9)
        else:
            cmp('P=? [F<=%r "%s"]' % (case["t"], g), time_bounded(ref, one, goal, case["t"]))
            cmp('P=? [!"%s" U<=%r "%s"]' % (av, case["t"], g), time_bounded(ref, ok, goal, case["t"]))
            for i in range(n):
                ctx.close(s.exit_rates[i], ref.exit(order[i]), "exit rate of %d in Storm" % i)
    # and back
    names = list(spec["actions"]) if k == "MDP" and case["k"] % 3 == 0 else []
    back = stormpyModeltoJajapy(s, names) if k == "MDP" else stormpyModeltoJajapy(s)
    ctx.check(type(back).__name__ == ("CTMC" if k == "PCTMC" else k), "type after the round trip: %s" % type(back).__name__)
    ctx.check(back.nb_states == n, "number of states after the round trip")
    same_behaviour(ctx, ref_of(back), ref, case)
    for i in range(n):
        ctx.check(back.getLabel(i) == m.getLabel(i), "label of %d after the round trip" % i)
    if k == "MDP":
        ctx.check(set(back.getActions()) == set(spec["actions"]), "actions after the round trip", back.getActions())


# ------------------------------------------------------------------ every transition, however improbable
def gen_matrix(r):
    k = r.pick(["MC", "MC", "MDP", "MDP", "CTMC", "PCTMC"])
    m = gen.ANY[k](r, lo=2, hi=5, big=12)
    n = m["n"]

    def row(x):
        if x is None or r.chance(1, 2) or sum(y > 0 for y in x) < 2:
            return x
        w = [y and y * r.pick([1.0, 1.0, 1e-4, 1e-7, 1e-9, 1e-12]) for y in x]
        return w if k == "CTMC" else [y / sum(w) for y in w]
    if k == "MDP":
        m["P"] = [[row(x) for x in rows] for rows in m["P"]]
    elif k in ("MC", "CTMC"):
        key = "P" if k == "MC" else "R"
        m[key] = [row(x) for x in m[key]]
    else:
        for s in range(n):
            for t in range(n):
                if m["T"][s][t] is not None and r.chance(1, 3):
                    m["T"][s][t] = r.pick(["%s/1000000", "%s*1e-7", "%s/100000000000"]) % r.pick(m["params"])
    return dict(model=m, actions=r.chance(1, 2))


def run_matrix(case, ctx):
    spec = case["model"]
    k = spec["kind"]
    m = build(spec)
    ref = ctmc(Ref(spec)) if k == "PCTMC" else Ref(spec)
    s = jajapyModeltoStormpy(m)
    structure(ctx, m, s, k)
    ctx.tag(k)

    def want(i):
        if k == "MDP":
            return {a: {t: p for t, p in x.items() if p > 0} for a, x in ref.P[i].items() if x}
        return {None: {t: p for t, p in ref.P[i].items() if p > 0}}

    def same(what, i, got, w):
        ctx.check(sorted(got, key=str) == sorted(w, key=str), "%s: choices of state %d" % (what, i), got, w)
        for a in w:
            ctx.check(set(got[a]) == set(w[a]), "%s: successors of state %d (%s)" % (what, i, a), got[a], w[a])
            for t in w[a]:
                ctx.close(got[a][t], w[a][t], "%s: %d -> %d (%s)" % (what, i, t, a), rel=1e-9)
                if w[a][t] < 1e-6:
                    ctx.nontrivial()
    for i in range(ref.n):
        got = {}
        for a in s.states[i].actions:
            row = {t.column: t.value() for t in a.transitions if t.value() != 0}
            got[tuple(a.labels)[0] if k == "MDP" else None] = row
        w = want(i)
        if k != "MDP" and not w[None]:
            continue                                          # Storm adds a self-loop to an absorbing state
        same("Storm", i, got, w)
    back = stormpyModeltoJajapy(s, list(spec["actions"]) if k == "MDP" and case["actions"] else [])
    for i in range(ref.n):
        w = want(i)
        if k == "MDP":
            got = {a: {t: float(back.a(i, t, a)) for t in range(ref.n) if back.a(i, t, a) != 0} for a in back.getActions(i)}
        elif k == "MC":
            got = {None: {t: float(back.a(i, t)) for t in range(ref.n) if back.a(i, t) != 0}}
        else:
            got = {None: {t: float(back.l(i, t, back.getLabel(i))) for t in range(ref.n) if back.l(i, t, back.getLabel(i)) != 0}}
        same("after the round trip", i, got, w)


# ------------------------------------------------------------------ Storm models built without jajapy
def gen_storm(r):
    k = r.pick(["MC", "MDP", "MDP", "CTMC"])
    m = gen.ANY[k](r, lo=1, hi=4, big=7)
    n = m["n"]
    pool = ["a", "b", "c", "zz"]
    m["sets"] = [sorted(r.sample(pool, r.pick([0, 1, 1, 2, 3]))) for _ in range(n)]
    m["start"] = r.int(0, n - 1)
    m["init"] = m["start"]
    m["labels"] = ["_".join(x) if x else ("init" if i == m["start"] else "empty") for i, x in enumerate(m["sets"])]
    return dict(model=m, names=k == "MDP" and r.chance(1, 2), labelled=r.chance(1, 2), timed=False, traces=[],
                give_names=r.chance(1, 2))


def run_storm(case, ctx):
    spec = case["model"]
    k, n = spec["kind"], spec["n"]
    lab = st.storage.StateLabeling(n)
    for x in ["init", "a", "b", "c", "zz"]:
        lab.add_label(x)
    for i, xs in enumerate(spec["sets"]):
        for x in xs:
            lab.add_label_to_state(x, i)
    lab.add_label_to_state("init", spec["start"])
    names = None
    if k == "MDP":
        choices = [(i, a, row) for i in range(n) for a, row in zip(spec["actions"], spec["P"][i]) if row is not None]
        first = [next(c for c, x in enumerate(choices) if x[0] == i) for i in range(n)]
        M = st.build_sparse_matrix(np.array([x[2] for x in choices]), first)
        comp = st.SparseModelComponents(transition_matrix=M, state_labeling=lab)
        if case["labelled"]:
            cl = st.storage.ChoiceLabeling(len(choices))
            for a in spec["actions"]:
                cl.add_label(a)
            for c, x in enumerate(choices):
                cl.add_label_to_choice(x[1], c)
            comp.choice_labeling = cl
        s = st.storage.SparseMdp(comp)
    else:
        M = np.array(spec["R" if k == "CTMC" else "P"])
        comp = st.SparseModelComponents(transition_matrix=st.build_sparse_matrix(M), state_labeling=lab,
                                        rate_transitions=k == "CTMC")
        if k == "CTMC":
            comp.exit_rates = M.sum(axis=1)
        s = (st.storage.SparseCtmc if k == "CTMC" else st.storage.SparseDtmc)(comp)
    if k == "MDP" and not case["labelled"]:
        # the choices have no names: they get the given ones (or a0, a1...) by their position in the state
        given = list(spec["actions"]) if case["give_names"] else []
        spec = dict(spec)
        most = max(sum(x is not None for x in rows) for rows in spec["P"])
        nm = given[:most] if given else ["a%d" % i for i in range(most)]
        if given and len(given) > most:
            nm = given[:most]
        spec["P"] = [[x for x in rows if x is not None] + [None] * (most - sum(x is not None for x in rows)) for rows in spec["P"]]
        spec["actions"] = nm
        m = stormpyModeltoJajapy(s, given)
        ctx.tag("choices without names")
    else:
        m = stormpyModeltoJajapy(s)
    ctx.tag(k)
    ctx.check(type(m).__name__ == k, "type of the jajapy model")
    ref = Ref(spec)
    if not spec["sets"][spec["start"]]:
        # the initial state only carries 'init': it stays the initial state
        ctx.tag("initial state kept")
        ref.P.pop()
        ref.labels = list(spec["labels"])
        ref.n = n
        ref.init = [1.0 if i == spec["start"] else 0.0 for i in range(n)]
    else:
        ctx.tag("initial state added")
    ctx.nontrivial(n > 1)
    ctx.check(m.nb_states == ref.n, "number of states: %d instead of %d" % (m.nb_states, ref.n))
    got = ref_of(m)
    ctx.check(got.labels == ref.labels, "labels", got.labels, ref.labels)
    ctx.check(got.init == ref.init, "initial state", got.init, ref.init)
    same_behaviour(ctx, got, ref, case)


# ------------------------------------------------------------------ what cannot be converted
def gen_refuse(r):
    k = r.pick(["PCTMC", "PCTMC", "HMM", "GOHMM"])
    m = gen.ANY[k](r, lo=2)
    if k == "PCTMC":
        m["values"].pop(r.pick(sorted(m["values"])))
    return dict(model=m)


def run_refuse(case, ctx):
    spec = case["model"]
    m = build(spec)
    if spec["kind"] == "PCTMC":
        free = [p for p in spec["params"] if p not in spec["values"]][0]
        import re
        if not any(e and free in re.findall(r"\w+", e) for row in spec["T"] for e in row):
            ctx.tag("unused parameter")
            return
    ctx.tag(spec["kind"])
    ctx.nontrivial()
    ctx.raises(Exception, lambda: jajapyModeltoStormpy(m), "conversion of a %s" % spec["kind"])


SUBS = [
    Sub("to_storm", gen_case, run, 3200, 30000,
        "random MC, MDP, CTMC, instantiated PCTMC: labels, choices, reachability, until, next, step or time bounded, min and "
        "max computed by Storm in every state against a reference solver, and the round trip; non-trivial: some probability "
        "strictly between 0 and 1"),
    Sub("from_storm", gen_storm, run_storm, 4000, 40000,
        "random Storm models built directly (several or no labels per state, choices with or without names); non-trivial: "
        "several states"),
    Sub("refused", gen_refuse, run_refuse, 150, 1000, "PCTMC without values, HMM, GoHMM: refused"),
    Sub("matrix", gen_matrix, run_matrix, 800, 8000,
        "every transition, down to probabilities and rates of 1e-13, in the Storm model and after the round trip; non-trivial: "
        "some transition below 1e-6"),
    Sub("enlarged", gen.enlarged(gen_case), run, 120, 1200, "to_storm with 16-44 states"),
]
