"""C12: Baum-Welch for CTMCs is exact EM on rates, fixed rates stay fixed."""
import gen
from build import Sub
from emcheck import gen_case, gen_many, gen_improbable, IMPROBABLE, run_exact, run_monotone


def add_fixed(r, c):
    m = c["model"]
    tr = [[s, t] for s in range(m["n"]) for t in range(m["n"])]
    tr += [[m["n"], t] for t in range(m["n"])]
    if r.chance(1, 4):
        s = r.int(0, m["n"])
        c["fixed"] = [[s, t] for t in range(m["n"])]   # a whole row
    else:
        c["fixed"] = [x for x in tr if r.chance(1, 3)]
    return c


def gen_timed(r, **kw):
    c = gen_case(r, "CTMC", True, **kw)
    return add_fixed(r, c) if r.chance(1, 2) else c


def gen_untimed(r, **kw):
    c = gen_case(r, "CTMC", False, **kw)
    return add_fixed(r, c) if r.chance(1, 3) else c


def gen_mono(r):
    timed = r.chance(1, 2)
    c = gen_case(r, "CTMC", timed, lo=2, hi=4, big=4, maxit=1)
    if timed and r.chance(1, 2):
        add_fixed(r, c)
    c["its"] = [1, 2, 4, 8]
    return c


SUBS = [
    Sub("timed", gen_timed, run_exact, 4500, 36000,
        "random CTMC and timed training set (half with fixed rates), 1-3 iterations compared with a reference EM; "
        "non-trivial: an iteration changes the likelihood"),
    Sub("untimed", gen_untimed, run_exact, 2600, 24000, "the same with non-timed traces (a third with fixed rates)"),
    Sub("larger", lambda r: gen_timed(r, lo=5, hi=8, big=8, lmax=10, nmax=4, maxit=1), run_exact, 400, 2400,
        "5-8 states, timed traces of up to 10 labels, one iteration"),
    Sub("many", lambda r: gen_many(r, "CTMC", r.chance(1, 2)), run_exact, 150, 1500,
        "up to 40 distinct traces (timed or not) with multiplicities up to 3001, one iteration"),
    Sub("monotone", gen_mono, run_monotone, 700, 6000,
        "likelihood (by the reference) after 1, 2, 4, 8 iterations, timed (half with fixed rates) or not (without); "
        "non-trivial: it increased"),
    Sub("improbable", lambda r: gen_improbable(r, "CTMC", r.chance(2, 3)), run_exact, 120, 1200, IMPROBABLE + ", timed or not"),
    Sub("enlarged", gen.enlarged(lambda r: gen_case(r, "CTMC", r.chance(1, 2), maxit=1)), run_exact, 120, 1200,
        "models with 16-44 states, one iteration, timed or not"),
]
