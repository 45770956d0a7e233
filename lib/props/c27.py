"""C27: evaluating, simulating, saving or converting a model does not change it."""
import os
import gen
from build import Sub, build, build_any, mkset, set_type, snapshot, set_snapshot
from props.c19 import load
from props.c20 import jajapyModeltoStormpy, stormpyModeltoJajapy
from jajapy.with_stormpy.model_converter import PCTMCtoCTMC
import jajapy as ja
import numpy as np

LOAD = dict(MC=ja.loadMC, MDP=ja.loadMDP, CTMC=ja.loadCTMC, PCTMC=ja.loadPCTMC, HMM=ja.loadHMM, GoHMM=ja.loadGoHMM)
KINDS = ["MC", "HMM", "MDP", "CTMC", "CTMC", "GOHMM", "PCTMC", "PCTMC"]
OPS = ["read", "ll", "ll", "ll", "ll_timed", "ll_timed", "run", "set", "save", "load", "prism", "storm", "back", "tomc", "compose",
       "compose", "str", "toctmc", "mixed"]


def gen_history(r):
    first = r.pick(KINDS)
    kinds = [first] + [first if r.chance(2, 3) else r.pick(KINDS) for _ in range(r.int(0, 2))]
    ms = []
    for k in kinds:
        m = gen.pctmc(r, hi=3, big=3, general=r.chance(1, 2)) if k == "PCTMC" else gen.ANY[k](r, lo=1, hi=4, big=4)
        c = dict(model=m)
        if k in ("MC", "MDP", "CTMC") and r.chance(1, 3):
            c["order"] = r.shuffle(range(m["n"] + 1))
        c["traces"] = gen.traces(r, m, nmax=4, lmax=4)
        if r.chance(1, 2):
            c["short"] = [[c["traces"][0][0][:1], r.int(1, 3)]]
        if k in ("CTMC", "PCTMC"):
            c["timed"] = gen.traces(r, m, nmax=4, lmax=4, timed=True)
        if r.chance(1, 2):
            c["name"] = r.pick(["my model", "model-1", "M", "x y-z", "2nd", "", "module"])
        ms.append(c)
    ops = [[r.pick(OPS), r.int(0, len(ms) - 1), r.int(0, 30)] for _ in range(r.int(3, 14))]
    return dict(models=ms, ops=ops, seed=r.int(0, 1000))


def fresh_model(c):
    m = build_any(c)
    if "name" in c:
        m.rename(c["name"])
    return m


def close(a, b):
    return a == b or (isinstance(a, float) and isinstance(b, float) and abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b)))


def sim(m, arg, timed):
    """a scheduler when one is needed"""
    return (ja.UniformScheduler(m.getActions()),) if type(m).__name__ == "MDP" else ()


def do(ctx, c, m, sets, op, arg, others):
    """performs op; returns a comparable answer, or None when it is random or not applicable"""
    k = type(m).__name__
    if op == "read":
        return snapshot(m)
    if op == "str":
        return str(m)
    if op == "ll":
        return float(m.logLikelihood(sets["plain"]))
    if op == "mixed":
        return float(m.logLikelihood(sets["short"])) if "short" in sets else None
    if op == "ll_timed":
        return float(m.logLikelihood(sets["timed"])) if "timed" in sets else None
    if op == "run":
        if k in ("CTMC", "PCTMC"):
            m.run(arg % 6 + 1, timed=bool(arg % 2))
        elif k == "MDP":
            m.run(arg % 6 + 1, *sim(m, arg, False))
        else:
            m.run(arg % 6 + 1)
        return None
    if op == "set":
        if k == "MDP":
            m.generateSet(arg % 6 + 1, arg % 4 + 1, *sim(m, arg, False))
        elif k in ("CTMC", "PCTMC"):
            m.generateSet(arg % 6 + 1, arg % 4 + 1, timed=bool(arg % 2))
        else:
            m.generateSet(arg % 6 + 1, arg % 4 + 1)
        return None
    if op in ("save", "load"):
        f = ctx.path("m.txt")
        m.save(f)
        text = open(f).read()
        if op == "load":
            g = LOAD[k](f)
            return [text, snapshot(g)] if k != "PCTMC" else text
        return text
    if op == "prism" and k in ("MC", "MDP", "CTMC", "PCTMC"):
        f = ctx.path("m.prism")
        m.savePrism(f)
        return open(f).read()
    if op in ("storm", "back") and k in ("MC", "MDP", "CTMC", "PCTMC"):
        x = m.toStormpy() if arg % 2 and k != "PCTMC" else jajapyModeltoStormpy(m)
        if op == "back" and k != "PCTMC":
            return snapshot(stormpyModeltoJajapy(x))
        return [x.nr_states, x.nr_transitions, sorted(x.labeling.get_labels())]
    if op == "tomc" and k == "CTMC":
        return snapshot(m.toMC())
    if op == "toctmc" and k == "PCTMC":
        return snapshot(PCTMCtoCTMC(m))
    if op == "compose" and k in ("CTMC", "PCTMC"):
        same = [x for x in others if type(x).__name__ == k]
        if k == "CTMC":
            return [arg % len(same), snapshot(ja.synchronousCompositionCTMCs(m, same[arg % len(same)]))]
        ms = [m] + [same[(arg // 3 + i) % len(same)] for i in range(1 + arg % 2)]
        if len({id(x) for x in ms}) < len(ms):
            return None
        return [arg % 2, arg // 3 % len(same), snapshot(ja.synchronousCompositionPCTMCs(ms))]
    return None


def run(case, ctx):
    ms, sets = [], []
    for c in case["models"]:
        ms.append(fresh_model(c))
        spec = c["model"]
        d = dict(plain=mkset(c["traces"], set_type(spec)))
        if "timed" in c:
            d["timed"] = mkset(c["timed"], 4)
        if "short" in c:
            d["short"] = mkset(c["short"], set_type(spec))
        sets.append(d)
    snaps = [snapshot(m) for m in ms]
    ssnaps = [{k: set_snapshot(s) for k, s in d.items()} for d in sets]
    answers = {}
    done = set()
    neg = [c["model"]["kind"] == "PCTMC" and not valid(c["model"]) for c in case["models"]]
    for op, i, arg in case["ops"]:
        if any(neg):
            ctx.tag("negative rates")
            return
        c = case["models"][i]
        got = do(ctx, c, ms[i], sets[i], op, arg, ms)
        ctx.tag(op)
        done.add((op, i))
        for j, m in enumerate(ms):
            now = snapshot(m)
            if now != snaps[j]:
                diff = [x for x in now if now[x] != snaps[j].get(x)]
                ctx.check(False, "%s of model %d changed model %d: %s" % (op, i, j, diff), [snaps[j][x] for x in diff], [now[x] for x in diff])
            for k, s in sets[j].items():
                ctx.check(set_snapshot(s) == ssnaps[j][k], "%s of model %d changed the traces %d" % (op, i, j), ssnaps[j][k], set_snapshot(s))
        if got is not None:
            key = (op, i) if op not in ("compose",) else (op, i, arg)
            if op in ("storm", "back"):
                key = (op, i)
            if key in answers:
                ctx.check(close(answers[key], got), "%s of model %d: another answer" % (op, i), answers[key], got)
                ctx.tag("repeated")
            answers[key] = got
    # every deterministic operation once more
    for (op, i, *a) in list(answers):
        got = do(ctx, case["models"][i], ms[i], sets[i], op, a[0] if a else 0, ms)
        ctx.check(close(answers[(op, i, *a)], got), "%s of model %d: another answer in the end" % (op, i), answers[(op, i, *a)], got)
    # and on a fresh copy of the model
    for (op, i, *a) in list(answers):
        if op in ("ll", "ll_timed", "mixed", "read", "str", "save", "tomc", "toctmc"):
            c = case["models"][i]
            fresh = {k: mkset(c[dict(plain="traces").get(k, k)], s.type) for k, s in sets[i].items()}
            got = do(ctx, c, fresh_model(c), fresh, op, 0, ms)
            ctx.check(close(answers[(op, i, *a)], got), "%s of model %d: a fresh model gives another answer" % (op, i),
                      answers[(op, i, *a)], got)
    ctx.nontrivial(len(done) > 2)


def valid(spec):
    from ref import Ref
    return all(x >= 0 for row in Ref(spec).P for x in row.values())


SUBS = [
    Sub("history", gen_history, run, 1500, 25000,
        "random histories of 3-14 read-only operations on 1-3 models of any kind; after each one all the models and sets "
        "of traces are compared with what they were, answers with the previous ones and with those of fresh models; "
        "non-trivial: at least three different operations"),
]
