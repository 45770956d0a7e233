"""C31: the numerical helpers compute what they document."""
import math
import numpy as np
import jajapy as ja
from jajapy.base.tools import normalize, checkProbabilities, hoeffdingBound, normpdf, randomProbabilities
from build import Sub


def gen_rows(r):
    k = r.pick(["normalize", "check", "random"])
    n = r.int(1, 12) if not r.chance(1, 15) else r.int(60, 400)
    if k == "random":
        return dict(k=k, n=r.pick([n, n, 30, 200]), bad=r.pick([0, -1, -7]), seed=r.int(0, 10 ** 6))
    big = r.pick([1.0, 1.0, 1e-8, 1e8, 1e-100, 37.0])
    w = [0.0 if r.chance(1, 4) else r.int(1, 1000) / r.pick([1, 7, 1000, 10 ** 6]) * big for _ in range(n)]
    if not any(w):
        w[0] = big
    return dict(k=k, w=w, how=r.pick(["list", "array"]), ints=r.chance(1, 6),
                tot=r.pick([0.0, 1.0, 1.0, 1.0004, 0.9996, 1.0006, 0.9993, 0.5, 2.0, 1.001, 0.99, -1.0, 0.0004, 0.0007, 1e6]))


def run_rows(c, ctx):
    ctx.tag(c["k"])
    if c["k"] == "random":
        np.random.seed(c["seed"])
        p = randomProbabilities(c["n"])
        ctx.check(len(p) == c["n"], "randomProbabilities: length", len(p), c["n"])
        ctx.check(all(float(x) > 0 for x in p), "randomProbabilities: a null or negative probability", p)
        ctx.close(math.fsum(float(x) for x in p), 1.0, "randomProbabilities: sum", rel=1e-12)
        ctx.raises(ValueError, lambda: randomProbabilities(c["bad"]), "randomProbabilities(%d)" % c["bad"])
        ctx.raises(TypeError, lambda: randomProbabilities(c["n"] + 0.5), "randomProbabilities of a float")
        ctx.nontrivial(c["n"] > 1)
        return
    w = c["w"]
    tot = math.fsum(w)
    if c["k"] == "normalize":
        if c["ints"]:
            w = [int(x * 1000) % 50 for x in w]
            w[0] += 1
            tot = sum(w)
        arg = list(w) if c["how"] == "list" else np.array(w)
        got = normalize(arg)
        ctx.check(type(got) is type(arg), "normalize: type", type(got))
        ctx.check(len(got) == len(w), "normalize: length", len(got))
        for i, x in enumerate(w):
            ctx.close(float(got[i]), x / tot, "normalize(%r)[%d]" % (w, i), rel=1e-12, abs_=0)
        ctx.check([float(x) for x in arg] == [float(x) for x in w], "normalize changed its argument")
        ctx.nontrivial(len(w) > 1)
        return
    row = [x / tot * c["tot"] for x in w]
    s = math.fsum(row)
    if min(abs(s - b) for b in (1.0005, 0.9995, 0.0005, -0.0005)) < 1e-9:
        return
    want = abs(s - 1) < 0.0005 or abs(s) < 0.0005
    ctx.nontrivial(len(row) > 1)
    got = checkProbabilities(np.array(row))
    ctx.check(bool(got) == want, "checkProbabilities(%r), whose sum is %r" % (row, s), got, want)


def gen_bound(r):
    n1, n2 = r.pick([0, 1, 2, 3]) if r.chance(1, 4) else r.int(1, 3000), r.int(0, 3000) if r.chance(1, 2) else r.int(1, 10)
    return dict(n1=n1, n2=n2, f1=r.int(0, n1), f2=r.int(0, n2), alpha=r.pick([1e-9, 1e-3, 0.01, 0.05, 0.1, 0.5, 0.8, 1.0, 1.5]),
                near=r.chance(1, 2))


def run_bound(c, ctx):
    n1, n2, f1, f2, al = c["n1"], c["n2"], c["f1"], c["f2"], c["alpha"]
    if n1 and n2:
        b = (1 / math.sqrt(n1) + 1 / math.sqrt(n2)) * math.sqrt(0.5 * math.log(2 / al))
        if c["near"]:                    # f2 around the limit
            f2 = min(n2, max(0, round((f1 / n1 + b) * n2) - (f2 % 3)))
        d = abs(f1 / n1 - f2 / n2)
        if abs(d - b) < 1e-9:
            return
        want = d < b
    else:
        want = True
    ctx.tag("compatible" if want else "different")
    ctx.nontrivial(n1 > 1 and n2 > 1)
    for a in ((f1, n1, f2, n2), (f2, n2, f1, n1)):
        ctx.check(bool(hoeffdingBound(*a, al)) == want, "hoeffdingBound%r" % (a + (al,),), None, want)


def gen_norm(r):
    return dict(mu=r.float(-50, 50), sd=r.pick([0.01, 0.1, 1.0, 3.7, 40.0]), z=r.float(-6, 6), v=r.pick([None, 0.001, 0.5, 2.0]))


def run_norm(c, ctx):
    mu, sd = c["mu"], c["sd"]
    x = mu + c["z"] * sd
    v = 0.01 if c["v"] is None else c["v"]
    F = lambda y: 0.5 * math.erfc(-(y - mu) / sd / math.sqrt(2))
    # the mass of the interval, without cancellation on the right of the mean
    G = lambda y: 0.5 * math.erfc((y - mu) / sd / math.sqrt(2))
    want = G(x - v) - G(x + v) if x > mu else F(x + v) - F(x - v)
    got = float(normpdf(x, [mu, sd]) if c["v"] is None else normpdf(x, [mu, sd], c["v"]))
    ctx.close(got, want, "normpdf(%r,[%r,%r])" % (x, mu, sd), rel=1e-6, abs_=1e-12)
    ctx.nontrivial(want > 1e-9)


SUBS = [
    Sub("rows", gen_rows, run_rows, 6000, 60000, "normalize, checkProbabilities, randomProbabilities on random rows of "
        "very different magnitudes, with zeros; non-trivial: several entries"),
    Sub("hoeffding", gen_bound, run_bound, 6000, 60000, "hoeffdingBound on random counts, half of them near the bound; "
        "non-trivial: more than one observation on each side"),
    Sub("normpdf", gen_norm, run_norm, 3000, 30000, "normpdf against the error function; non-trivial: mass above 1e-9"),
]
