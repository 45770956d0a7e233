"""C30: the text of a model shows its states, labels, transitions and parameters."""
import re
import gen
from build import Sub, build_any
from gen import init_row
from ref import Ref, ev
import jajapy as ja

NUM = r"([-+0-9.eE]+|nan|inf|-inf)"


def gen_case(r):
    k = r.pick(["MC", "MDP", "CTMC", "HMM", "GOHMM", "PCTMC"])
    m = gen.pctmc(r, instantiated=r.chance(1, 2)) if k == "PCTMC" else gen.ANY[k](r, lo=1, hi=5, big=14)
    if k == "CTMC":
        for s in range(m["n"]):
            if r.chance(1, 4):           # slow and fast states
                x = r.pick([1e-5, 1e-7, 1e4])
                m["R"][s] = [x * y for y in m["R"][s]]
    c = dict(model=m, name=r.pick([None, "M", "my model", "x1"]))
    if k in ("MC", "MDP", "CTMC") and r.chance(1, 3):
        c["order"] = r.shuffle(range(m["n"] + 1))
    return c


def blocks(ctx, text):
    parts = re.split(r"^----STATE ", text, flags=re.M)
    res = []
    for p in parts[1:]:
        head, rest = p.split("\n", 1)
        g = re.fullmatch(r"s?(\d+)(?:--(.*))?----", head)
        ctx.check(g, "header of a state", head)
        res.append((int(g.group(1)), g.group(2), [x for x in rest.split("\n") if x]))
    return parts[0], res


def run(c, ctx):
    spec = c["model"]
    k, n = spec["kind"], spec["n"]
    m = build_any(c)
    if c["name"] is not None:
        m.rename(c["name"])
    inst = k != "PCTMC" or set(spec["values"]) == set(spec["params"])
    ref = Ref(spec, None if inst else {p: 1.0 for p in spec["params"]})
    if any(x < 0 for row in ref.P for x in (row.values() if k != "MDP" else [])):
        return
    order = (c.get("order") or list(range(n + 1)))[:ref.n]
    pos = {s: i for i, s in enumerate(order)}
    ctx.tag(k)
    ctx.nontrivial(n > 1)
    head, bl = blocks(ctx, str(m))
    lines = head.split("\n")
    ctx.check(lines[0] == "Name: " + m.name, "name", head)
    if k == "PCTMC":
        for p in spec["params"]:
            got = [x for x in lines if x.startswith(p + " = ")]
            ctx.check(len(got) == (1 if p in spec["values"] and any(p in str(e) for row in spec["T"] for e in row if e) else 0)
                      or (p in spec["values"]), "parameter %s" % p, head)
            for x in got:
                ctx.close(float(x.split(" = ")[1]), spec["values"][p], "value of " + p, abs_=1e-5)
    # initial distribution
    got = [x for x in lines if x.startswith("Initial state: ")]
    ctx.check(len(got) == 1, "initial state", head)
    got = got[0][len("Initial state: "):]
    if 1.0 in ref.init:
        ctx.check(got == "s%d" % pos[ref.init.index(1.0)], "initial state", got)
    else:
        d = {int(x.split(":")[0][1:]): float(x.split(":")[1]) for x in got.split(", ")}
        for s in range(ref.n):
            ctx.check(abs(d.get(pos[s], 0.0) - ref.init[s]) <= 1.01e-3, "initial distribution", got, ref.init)
    ctx.check([b[0] for b in bl] == list(range(ref.n)), "states", [b[0] for b in bl])
    for i, lab, body in bl:
        s = order[i]
        if k in ("MC", "MDP", "CTMC", "PCTMC"):
            ctx.check(lab == ref.labels[s], "label of state %d" % i, lab, ref.labels[s])
        if k == "PCTMC":
            parametric(ctx, spec, ref, inst, s, i, body)
            continue
        shown = {}
        for x in body:
            g = re.fullmatch(r"s(\d+)(?: - \((.*)\))? -> s(\d+) : (?:lambda = )?" + NUM, x)
            if g:
                ctx.check(int(g.group(1)) == i, "line of another state", x)
                key = (g.group(2), int(g.group(3)))
                ctx.check(key not in shown, "transition shown twice", body)
                shown[key] = float(g.group(4))
        if k == "MDP":
            want = {(a, pos[t]): p for a, row in ref.P[s].items() for t, p in row.items()}
        else:
            want = {(None, pos[t]): p for t, p in ref.P[s].items()}
        tot = sum(want.values()) if k == "CTMC" else 1.0
        for x, p in want.items():
            ctx.check(x in shown or p <= 1.01e-4 * tot, "transition to s%d (%r) not shown" % (x[1], p), body)
        for x, p in shown.items():
            ctx.check(x in want, "transition shown but impossible", x, body)
            ctx.close(p, want[x], "probability or rate of %d -> %d" % (i, x[1]), rel=1e-9, abs_=1e-5 * min(1.0, tot))
        if k == "CTMC" and tot > 0:
            w = [x for x in body if "waiting time" in x]
            ctx.check(len(w) == 1, "waiting time of state %d" % i, body)
            ctx.close(float(w[0].split(":")[1]), 1 / tot, "waiting time", rel=1e-9, abs_=1e-5)
        if k == "HMM":
            em = dict(re.fullmatch(r"s%d => (.*) : %s" % (i, NUM), x).groups() for x in body if " => " in x)
            for o, p in ref.E[s].items():
                ctx.check(o in em or p <= 1.01e-4, "emission of %s by s%d" % (o, i), body)
            for o, p in em.items():
                ctx.close(float(p), ref.E[s].get(o, 0.0), "emission of %s by s%d" % (o, i), rel=1e-9, abs_=1e-5)
        if k == "GOHMM":
            for j, (mu, sg) in enumerate(spec["out"][s]):
                for w, v in (("mean", mu), ("std", sg)):
                    x = [y for y in body if y.startswith("%s %d: " % (w, j + 1))]
                    ctx.check(len(x) == 1, "%s %d of s%d" % (w, j + 1, i), body)
                    ctx.close(float(x[0].split(": ")[1]), v, "%s %d of s%d" % (w, j + 1, i), abs_=1e-4)


def parametric(ctx, spec, ref, inst, s, i, body):
    n = spec["n"]
    row = [repr(x) if x else None for x in init_row(spec["init"], n)] if s == n else spec["T"][s]
    shown = {}
    for x in body:
        g = re.fullmatch(r"s(\d+) -> s(\d+) : lambda = (.*?)(?: \(=" + NUM + r"\))?", x)
        if g:
            ctx.check(int(g.group(1)) == i and int(g.group(2)) not in shown, "line of another state", body)
            shown[int(g.group(2))] = g.group(3, 4)
    ctx.check(set(shown) == {t for t, x in enumerate(row) if x}, "transitions of state %d" % i, body, row)
    for t, (e, v) in shown.items():
        for j in range(2):
            vals = {p: 0.7 + 0.9 * j + 0.31 * q for q, p in enumerate(spec["params"])}
            w = ev(row[t], vals)
            ctx.close(ev(e, vals), w, "rate %s of %d -> %d" % (e, i, t), rel=1e-9)
        if v is not None:
            ctx.close(float(v), ev(row[t], spec["values"]), "value of the rate %d -> %d" % (i, t), abs_=1e-5)
        elif inst and not isinstance(row[t], float) and any(p in re.findall(r"[A-Za-z_]\w*", row[t]) for p in spec["params"]):
            ctx.check(False, "value of the rate %d -> %d not shown" % (i, t), body)
    if inst:
        tot = sum(ref.P[s].values())
        w = [x for x in body if "waiting time" in x]
        if tot > 0:
            ctx.check(len(w) == 1, "waiting time of state %d" % i, body)
            ctx.close(float(w[0].split(":")[1]), 1 / tot, "waiting time", abs_=1e-5)


SUBS = [
    Sub("text", gen_case, run, 5000, 60000,
        "random models of every kind; str(model) parsed and compared with the description (names, initial distribution, "
        "labels, transitions above 0.0001, emissions, parameters and values); non-trivial: several states"),
    Sub("enlarged", gen.enlarged(gen_case), run, 240, 2400, "models with 16-44 states (PCTMC 8-18)"),
]
