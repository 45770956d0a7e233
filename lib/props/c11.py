"""C11: Baum-Welch for MDPs is exact EM."""
import gen
from build import Sub
from emcheck import gen_case, gen_many, gen_improbable, IMPROBABLE, run_exact, run_monotone

KIND = "MDP"


def gen_mono(r):
    c = gen_case(r, KIND, lo=2, hi=4, big=4, maxit=1)
    c["its"] = [1, 2, 4, 8]
    return c


SUBS = [
    Sub("exact", lambda r: gen_case(r, KIND), run_exact, 5000, 36000,
        "random MDP and training set (some traces impossible), 1-3 iterations compared with a reference EM; non-trivial: "
        "an iteration changes the likelihood"),
    Sub("larger", lambda r: gen_case(r, KIND, lo=6, hi=9, big=9, lmax=12, nmax=4, maxit=1), run_exact, 500, 3600,
        "6-9 states, traces of up to 12 observations, one iteration"),
    Sub("many", lambda r: gen_many(r, KIND), run_exact, 150, 1500,
        "up to 40 distinct traces with multiplicities up to 3001, one iteration"),
    Sub("monotone", gen_mono, run_monotone, 700, 6000,
        "likelihood (by the reference) after 1, 2, 4, 8 iterations; non-trivial: it increased"),
    Sub("improbable", lambda r: gen_improbable(r, KIND), run_exact, 120, 1200, IMPROBABLE),
    Sub("enlarged", gen.enlarged(lambda r: gen_case(r, KIND, maxit=1)), run_exact, 120, 1200, "models with 16-44 states, one iteration"),
]
