"""C29: relabelling or renaming a model changes nothing but its labels or its name."""
import contextlib
import io
import math
import zlib
import gen
from build import Sub, build, build_any, mkset, set_type, snapshot
from props.c16 import ref_of
from props.c19 import walks
from props.c27 import LOAD
import jajapy as ja

POOL = gen.LABELS + ["new", "init2", "x_1"]
OPS = ["labels", "labels", "labels", "short", "short", "bad length", "no init", "rename", "ll", "run", "save", "str"]


def gen_case(r):
    k = r.pick(["MC", "MDP", "CTMC", "MC", "MDP", "CTMC", "HMM", "GOHMM", "PCTMC"])
    m = gen.ANY[k](r, lo=1, hi=4, big=6)
    c = dict(model=m, seed=r.int(0, 10 ** 6))
    if k in ("MC", "MDP", "CTMC") and r.chance(1, 2):
        c["order"] = r.shuffle(range(m["n"] + 1))
    n = m["n"] + 1
    ops = []
    for _ in range(r.int(1, 8)):
        o = r.pick(OPS if k in ("MC", "MDP", "CTMC") else ["rename", "ll", "run", "save", "str"])
        if o == "labels":
            x = [r.pick(POOL) for _ in range(n)]
            for _ in range(r.pick([1, 1, 1, 2, 3])):
                x[r.int(0, n - 1)] = "init"
        elif o == "short":
            x = [r.pick(POOL) for _ in range(n - 1)]
        elif o == "bad length":
            x = [r.pick(POOL) for _ in range(max(1, r.pick([n - 2, n + 1, n + 2, 2 * n])))]
            if len(x) in (n, n - 1):
                x += [r.pick(POOL)] * 2
            if r.chance(3, 4):
                x[r.int(0, len(x) - 1)] = "init"
        elif o == "no init":
            x = [r.pick(POOL) for _ in range(n)]
        elif o == "rename":
            x = r.pick(["my model", "M", "x y-z", "a'b"])
        else:
            x = r.int(0, 1000)
        ops.append([o, x])
    return dict(c, ops=ops)


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


def run(c, ctx):
    m = build_any(c)
    kind = type(m).__name__
    want = snapshot(m)
    ctx.tag(kind)
    moved = refused = False
    for op, x in c["ops"]:
        ctx.tag(op)
        if op in ("labels", "short"):
            arg = list(x)
            m.updateLabelling(arg)
            ctx.check(arg == x, "updateLabelling changed the list", x, arg)
            lab = list(x) if op == "labels" else list(x) + ["init"]
            pi = [1.0 / lab.count("init") if o == "init" else 0.0 for o in lab]
            moved |= pi != want["pi"]
            want = dict(want, labels=lab, pi=pi, alphabet=sorted(set(lab)))
        elif op in ("bad length", "no init"):
            refused = True
            try:
                quiet(m.updateLabelling, list(x))
            except Exception:
                pass
        elif op == "rename":
            m.rename(x)
            want = dict(want, name=x)
        elif op == "save":
            f = ctx.path("m.txt")
            m.save(f)
            got = snapshot(LOAD[kind](f))
            if kind != "PCTMC":
                ctx.check(got == want, "after save and load", [(k, got[k], want[k]) for k in want if got[k] != want[k]])
        elif op == "str":
            ctx.check(want["name"] in str(m), "name not printed")
        got = snapshot(m)
        ctx.check(got == want, "after %s %r" % (op, x), [(k, got[k], want[k]) for k in want if got[k] != want[k]])
        if kind not in ("MC", "MDP", "CTMC"):
            continue
        ref = ref_of(m)
        ref.init, ref.labels = list(want["pi"]), list(want["labels"])
        ref.P = relabelled(want)
        if op == "run":
            start = "init"
            if kind == "MDP":
                if all(any(d.values()) for d in ref.P):
                    t = m.run(x % 5 + 1, ja.UniformScheduler(m.getActions()))
                    ctx.check(t[0] == start and ref.prob(t) > 0, "impossible trace", t)
            elif kind == "CTMC" or all(ref.P):
                t = m.run(x % 5 + 1)
                ctx.check(t[0] == start and ref.prob(t) > 0, "impossible trace", t)
        if op == "ll":
            ts = walks(ref, x, False, 4)
            ps = [ref.prob(t) for t in ts]
            if min(ps) > 1e-200:
                got = float(m.logLikelihood(mkset([[t, 1] for t in ts], set_type(c["model"]))))
                ctx.close(got, sum(math.log(p) for p in ps) / len(ps), "loglikelihood of %r" % (ts,))
    ctx.nontrivial(moved or refused or kind not in ("MC", "MDP", "CTMC"))


def relabelled(s):
    n = s["n"]
    if s["kind"] == "MDP":
        return [{a: {t: M[i][t] for t in range(n) if M[i][t] != 0} for a, M in s["P"].items()} for i in range(n)]
    M = s["P" if s["kind"] == "MC" else "R"]
    return [{t: M[i][t] for t in range(n) if M[i][t] != 0} for i in range(n)]


SUBS = [
    Sub("history", gen_case, run, 6000, 80000,
        "random histories of 1-8 updateLabelling (the initial state moving or not, refused lists), rename, evaluations, "
        "simulations, save/load on a model of any kind; everything the model answers after each operation; non-trivial: "
        "the initial state moved or a list was refused (or a model without labels)"),
    Sub("enlarged", gen.enlarged(gen_case), run, 160, 2400, "histories on models with 16-44 states (PCTMC 8-18)"),
]
