"""C22: instantiating a PCTMC evaluates its rate expressions."""
import math
import random
import re
import gen
from build import Sub, build
from ref import ev
from jajapy.with_stormpy.model_converter import PCTMCtoCTMC
import jajapy as ja


def names(e):
    return re.findall(r"[a-zA-Z_]\w*", e)


def diff_expr(r, params, general):
    """expressions which can become negative"""
    c = r.int(0, 4)
    if c == 0:
        return "%s - %s" % (r.pick(["1.0", "2.5", "4"]), gen.monomial(r, params))
    if c == 1 and len(params) > 1:
        p, q = r.sample(params, 2)
        return "%s - %s" % (p, q)
    if c == 2:
        return "%s**2 - %s" % (r.pick(params), r.pick(["0.25", "1"]))
    return gen.expr(r, params)


def gen_history(r):
    neg = r.chance(1, 2)
    m = gen.pctmc(r, lo=1, hi=3, big=5, nparams=r.int(1, 5), exprs=diff_expr if neg else gen.expr, instantiated=False)
    if r.chance(1, 3):
        m["values"] = {}
    if neg and any(x is None or x < 0 for x in rates(m, m["values"])):
        m["values"] = {}
    ops = []
    for _ in range(r.int(1, 8)):
        o = r.pick(["set", "set", "set", "set_all", "random", "random", "evaluate", "convert", "set_bad"])
        op = dict(op=o)
        if o in ("set", "set_all", "set_bad"):
            ps = list(m["params"]) if o == "set_all" else r.sample(m["params"], r.int(1, len(m["params"])))
            op["values"] = [[p, value(r, o == "set_bad")] for p in r.shuffle(ps)]
        elif o == "random":
            op["params"] = r.sample(m["params"], r.int(1, len(m["params"]))) if r.chance(1, 2) else None
            if r.chance(2, 3):
                op["min"] = r.int(1, 20) / 10
                op["max"] = op["min"] + r.pick([0, 0.01, 1, 3])
            op["seed"] = r.pick([None, 1, 5])
        elif o == "evaluate":
            op["values"] = {p: value(r, False) for p in m["params"]}
        ops.append(op)
    return dict(model=m, ops=ops, neg=neg)


def value(r, bad):
    if bad:
        return r.pick([-1.0, -0.3, 100.0, 0.0, -1e-5, -1e-7])
    return r.pick([1e-6, 1e4, 0.0]) if r.chance(1, 12) else r.int(1, 40) / 10


def rates(m, vals):
    """values of the instantiated rates"""
    res = []
    for row in m["T"]:
        for e in row:
            if e is not None and all(p in vals for p in names(e)):
                try:
                    res.append(ev(e, vals))
                except ZeroDivisionError:
                    res.append(None)
    return res


def run(case, ctx):
    spec = case["model"]
    n = spec["n"]
    h = build(spec)
    vals = dict(spec["values"])
    lab = list(spec["labels"]) + ["init"]
    ini = gen.init_row(spec["init"], n)
    E = [[e for e in row] + [None] for row in spec["T"]] + [[repr(float(x)) if x > 0 else None for x in ini] + [None]]
    N = n + 1

    def check():
        for p in spec["params"]:
            ctx.check(h.isInstantiated(param=p) == (p in vals), "isInstantiated(param=%s)" % p, vals)
            v = float(h.parameterValue(p))
            ctx.check(v == vals[p] if p in vals else math.isnan(v), "parameterValue(%s) is %r" % (p, v), vals)
        ctx.check(bool(h.isInstantiated()) == all(p in vals for p in spec["params"]), "isInstantiated()", vals)
        zero = any(v == 0 for v in vals.values())
        for s in range(N):
            known = [e is None or all(p in vals for p in names(e)) for e in E[s]]
            ctx.check(bool(h.isInstantiated(s)) == all(known), "isInstantiated(%d)" % s, vals, E[s])
            ctx.check(set(h.involvedParameters(s)) == {p for e in E[s] if e for p in names(e)}, "involvedParameters(%d)" % s)
            row = []
            for t in range(N):
                e = E[s][t]
                ctx.check(bool(h.isInstantiated(s, t)) == known[t], "isInstantiated(%d,%d)" % (s, t), vals, e)
                ctx.check(set(h.involvedParameters(s, t)) == set(names(e) if e else []), "involvedParameters(%d,%d)" % (s, t))
                if known[t]:
                    x = 0.0 if e is None else ev(e, vals)
                    row.append(x)
                    for name, y in (("l", h.l(s, t, lab[s])), ("transitionValue", h.transitionValue(s, t)),
                                    ("evaluateTransition", h.evaluateTransition(s, t))):
                        ctx.close(float(y), x, "%s(%d,%d) of %s under %r" % (name, s, t, e, vals), rel=1e-9, abs_=1e-10)
                    for other in set(lab) - {lab[s]}:
                        ctx.check(h.l(s, t, other) == 0.0, "l with another label")
                elif not zero:
                    ctx.raises(TypeError, lambda: float(h.l(s, t, lab[s])), "rate %s under %r" % (e, vals))
            if all(known):
                tot = sum(row)
                if any(e is not None and x == 0.0 and names(e) for e, x in zip(E[s], row)):
                    ctx.tag("difference equal to 0")      # sympy evaluates p - q to 1e-126 when p = q
                    continue
                if tot < 0 or (0 < abs(tot) < 1e-9) or any(0 < abs(x) < 1e-10 for x in row) or any(x < 0 for x in row):
                    ctx.tag("borderline")
                    continue
                ctx.close(float(h.e(s)), tot, "e(%d)" % s)
                for d in (0.0, 0.5, 2.0):
                    ctx.close(float(h.lkl(s, d)), tot * math.exp(-tot * d), "lkl(%d,%r)" % (s, d), abs_=1e-250)
                ctx.check(h.lkl(s, -0.5) == 0.0, "lkl of a negative time")
                if tot > 0:
                    ctx.close(float(h.expected_time(s)), 1 / tot, "expected_time(%d)" % s)
                for t in range(N):
                    want = row[t] / tot if tot > 0 else float(s == t)
                    ctx.close(float(h.tau(s, t, lab[s])), want, "tau(%d,%d)" % (s, t))
            elif not zero:
                ctx.raises(ValueError, lambda: h.e(s), "e of a state which is not instantiated")
                for q in (lambda: h.lkl(s, 1.0), lambda: h.expected_time(s), lambda: h.tau(s, 0, lab[s])):
                    try:
                        x = q()
                    except Exception:
                        continue
                    ctx.check(x is None or not isinstance(x, (int, float)), "quantity of state %d, not instantiated, is %r" % (s, x))
                ctx.raises(ValueError, lambda: h.next(s), "next from a state which is not instantiated")
        if not all(p in vals for p in spec["params"]):
            ctx.raises(ValueError, lambda: PCTMCtoCTMC(h), "conversion to a CTMC")
            ctx.raises(ValueError, lambda: h.logLikelihood(ja.Set([["init"]], [1], 0)), "logLikelihood")
    check()
    done = 0
    for op in case["ops"]:
        o = op["op"]
        if o in ("set", "set_all", "set_bad"):
            new = dict(vals, **{p: v for p, v in op["values"]})
            x = rates(spec, new)
            if any(y is None or (y != 0 and abs(y) < 1e-9) for y in x):
                ctx.tag("skipped")
                continue
            if any(v == 0 for v in new.values()) and len(new) < len(spec["params"]):
                ctx.tag("skipped")
                continue
            # a rate whose missing parameters do not matter
            want = all(y >= 0 for y in x)
            ps = [p for p, _ in op["values"]]
            vs = [v for _, v in op["values"]]
            got = h.instantiate(ps, vs)
            ctx.check(bool(got) == want, "instantiate(%r, %r) answers %r" % (ps, vs, got), x)
            ctx.check(len(ps) == len(op["values"]), "instantiate changed its arguments")
            ctx.tag("accepted" if want else "refused")
            if want:
                vals = new
                done += 1
        elif o == "random":
            ps = op["params"]
            target = ps if ps is not None else [p for p in spec["params"] if p not in vals]
            if case["neg"] or any(v < 0 for v in vals.values()):
                # only when it is easy to find values: half of the ones within the bounds are accepted
                if "min" not in op:
                    continue
                rnd = random.Random(len(case["ops"]))
                tries = [rates(spec, dict(vals, **{p: rnd.uniform(op["min"], op["max"]) for p in target})) for _ in range(60)]
                if sum(all(y is not None and y >= 0 for y in x) for x in tries) < 30:
                    continue
                ctx.tag("random, some refused" if any(any(y is None or y < 0 for y in x) for x in tries) else "random, none refused")
            kw = dict(min_val=op["min"], max_val=op["max"]) if "min" in op else {}
            lo, hi = op.get("min"), op.get("max")
            if lo is None and len(vals) > 1:
                lo, hi = min(vals.values()), max(vals.values())
            old = dict(vals)
            h.randomInstantiation(None if ps is None else list(ps), sseed=op["seed"], **kw)
            for p in target:
                v = float(h.parameterValue(p))
                ctx.check(math.isfinite(v), "randomInstantiation did not set %s" % p)
                if lo is not None:
                    ctx.check(lo - 1e-12 <= v <= hi + 1e-12, "randomInstantiation: %s=%r outside [%r,%r]" % (p, v, lo, hi), old)
                vals[p] = v
            ctx.check(all(y is None or y >= 0 for y in rates(spec, vals)), "randomInstantiation: negative rate", vals)
            if op["seed"] is not None and target:
                h.randomInstantiation(list(target), sseed=op["seed"], **dict(kw, min_val=lo, max_val=hi)) if lo is not None else None
                if lo is not None:
                    for p in target:
                        ctx.check(float(h.parameterValue(p)) == vals[p], "the same seed gives other values")
            ctx.tag("random")
            done += bool(target)
        elif o == "evaluate":
            for s in range(n):
                for t in range(n):
                    e = spec["T"][s][t]
                    try:
                        x = 0.0 if e is None else ev(e, op["values"])
                    except ZeroDivisionError:
                        continue
                    ctx.close(float(h.evaluateTransition(s, t, dict(op["values"]))), x, "evaluateTransition with values", abs_=1e-10)
        elif o == "convert" and all(p in vals for p in spec["params"]):
            if any(abs(x) < 1e-9 or x < 0 for x in rates(spec, vals)):
                continue
            c = PCTMCtoCTMC(h)
            ctx.check(type(c).__name__ == "CTMC" and c.nb_states == N, "type or size of the CTMC")
            for s in range(N):
                ctx.check(c.getLabel(s) == lab[s], "label of the CTMC")
                for t in range(N):
                    ctx.close(float(c.l(s, t, lab[s])), 0.0 if E[s][t] is None else ev(E[s][t], vals), "rate of the CTMC")
            ctx.tag("converted")
        check()
    ctx.nontrivial(done > 1 or (done and len(spec["params"]) > 1))


SUBS = [
    Sub("history", gen_history, run, 1300, 24000,
        "random PCTMC (polynomial, rational and possibly negative rates, parameters with or without value) and history of up to "
        "8 operations against the evaluated expressions; non-trivial: several accepted instantiations or parameters"),
    Sub("enlarged", gen.enlarged(gen_history), run, 32, 600, "models with 8-18 states, up to 324 transitions"),
]
