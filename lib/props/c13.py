"""C13: Baum-Welch for GoHMMs increases the likelihood with EM updates."""
from build import Sub
from emcheck import gen_case, gen_many, gen_improbable, IMPROBABLE, run_exact, run_monotone


def gen_go(r, **kw):
    if r.chance(5, 6):
        kw = dict(dict(nmax=6, minlen=2), **kw)
    c = gen_case(r, "GOHMM", impossible=False, **kw)
    if r.chance(1, 10):  # a constant
        d = r.int(0, c["model"]["d"] - 1)
        x = r.pick([c["model"]["out"][0][d][0], 0.0, round(c["model"]["out"][0][d][0] + c["model"]["out"][0][d][1], 9)])
        for t, _ in c["traces"]:
            t[:] = [o[:d] + [x] + o[d + 1:] for o in t]
        seen, uniq = [], []
        for t, m in c["traces"]:
            if t not in seen:
                seen.append(t)
                uniq.append([t, m])
        c["traces"] = uniq
    if r.chance(1, 15):  # a small unit
        for row in c["model"]["out"]:
            for x in row:
                x[0] *= 1e-4
                x[1] *= 1e-4
        for t, _ in c["traces"]:
            t[:] = [[x * 1e-4 for x in o] for o in t]
    elif r.chance(3, 4):   # wide enough for every state to explain every observation
        for row in c["model"]["out"]:
            for x in row:
                x[1] = max(x[1], 1.0)
    return c


def gen_mono(r):
    c = gen_go(r, lo=1, hi=3, big=3, maxit=1, nmax=5)
    c["its"] = [1, 2, 3, 4, 5, 6]
    return c


SUBS = [
    Sub("exact", gen_go, run_exact, 2800, 30000,
        "random GoHMM (1-6 states, 1-3 distributions) and set of sequences of vectors, 1-3 iterations compared with a "
        "reference EM; non-trivial: an iteration changes the likelihood"),
    Sub("improbable", lambda r: gen_improbable(r, "GOHMM"), run_exact, 80, 1000, IMPROBABLE),
    Sub("many", lambda r: gen_many(r, "GOHMM"), run_exact, 150, 1500,
        "up to 40 distinct traces with multiplicities up to 3001, one iteration"),
    Sub("monotone", gen_mono, run_monotone, 500, 6000,
        "likelihood (by the reference) after 1 to 6 iterations; non-trivial: it increased"),
]
