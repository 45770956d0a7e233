"""Generators.  Every random choice is asked from the source r (engine.R), so that failures shrink; cases are JSON
values."""


# ------------------------------------------------------------------ basic values
LARGE = [None]


def enlarged(f, lo=16, hi=44):
    """the generator f, with large models"""
    def g(r):
        LARGE[0] = (lo, hi)
        try:
            return f(r)
        finally:
            LARGE[0] = None
    return g


def size(r, lo=1, hi=5, big=12):
    """mostly small, sometimes big"""
    if LARGE[0]:
        return r.int(*LARGE[0])
    return few(r, lo, hi, big)


def few(r, lo=1, hi=5, big=12):
    if big > hi and r.chance(1, 8):
        return r.int(hi, big)
    if lo < 2 <= hi and not r.chance(1, 12):
        lo = 2
    return r.int(lo, hi)


def weights(r, k, maxw=9, tiny=True):
    """k positive weights"""
    w = [r.int(1, maxw) for _ in range(k)]
    if tiny and k > 1 and r.chance(1, 10):
        w[r.int(0, k - 1)] = r.pick([1e-3, 1e-5, 3e-7])
    return w


def row(r, n, density=None, tiny=True, allow=None):
    """a probability row over n states as a dense list of floats, at least one positive"""
    idx = list(range(n)) if allow is None else list(allow)
    if density is None:
        density = r.pick([0, 1, 1, 2, 2, 2, 3, 3])
    if density == 0:
        sup = [r.pick(idx)]
    elif density == 3:
        sup = idx
    else:
        k = r.int(1, min(len(idx), 2 if density == 1 else 4))
        sup = r.sample(idx, k)
    w = weights(r, len(sup), tiny=tiny)
    tot = sum(w)
    res = [0.0] * n
    for s, x in zip(sup, w):
        res[s] += x / tot
    return res


LABELS = ["a", "b", "c", "d", "e", "x1", "gg", "Lab_el", "aa", "Z", "x10", "x2"]


def labels(r, n, k=None, pool=LABELS):
    """n labels over k different ones"""
    if LARGE[0] and pool is LABELS and r.chance(1, 2):
        pool = ["s%d" % i for i in range(n)]
    if k is None:
        m = min(n, len(pool))
        k = m if r.chance(1, 3) else min(m, r.pick([1, 2, 2, 2, 3, 3, 3, 4]))
    pool = pool[:k]
    return r.shuffle(pool + [r.pick(pool) for _ in range(n - k)])


def initial(r, n):
    """an int or a distribution"""
    if r.chance(1, 2):
        return row(r, n, tiny=False)
    return r.int(0, n - 1)


def init_row(init, n):
    if isinstance(init, int):
        return [1.0 if i == init else 0.0 for i in range(n)]
    return list(init)


# ------------------------------------------------------------------ models
def mc(r, n=None, lo=1, hi=5, big=14, tiny=True, pool=LABELS, dead=False):
    """dead: some states may have no leaving transition, as the leaves of the models learned by Alergia"""
    n = n or size(r, lo, hi, big)
    P = [row(r, n, tiny=tiny) for _ in range(n)]
    if dead and r.chance(1, 5):
        for s in r.shuffle(range(n))[:r.int(1, max(1, n // 2))]:
            P[s] = [0.0] * n
    return dict(kind="MC", n=n, labels=labels(r, n, pool=pool), P=P, init=initial(r, n))


ACTIONS = ["A", "B", "go", "g", "l", "r2", "go2", "v", "w", "y", "z", "k1"]


def mdp(r, n=None, lo=1, hi=4, big=13, nact=None, missing=True, tiny=True, pool=LABELS):
    """P[s][action index] a row or None when the action is not available; every action available somewhere and
    every state has an action"""
    n = n or size(r, lo, hi, big)
    k = nact or few(r, 1, 3, 11)
    acts = ACTIONS[:k]
    if r.chance(1, 2):
        acts = r.shuffle(acts)
    hole = missing and r.chance(2, 3)
    P = [[None if hole and r.chance(1, 3) else row(r, n, tiny=tiny) for _ in acts] for _ in range(n)]
    for s in range(n):
        if all(x is None for x in P[s]):
            P[s][r.int(0, k - 1)] = row(r, n, tiny=tiny)
    for a in range(k):
        if all(P[s][a] is None for s in range(n)):
            P[r.int(0, n - 1)][a] = row(r, n, tiny=tiny)
    return dict(kind="MDP", n=n, labels=labels(r, n, pool=pool), actions=acts, P=P, init=initial(r, n))


def rate(r):
    c = r.int(0, 9)
    if c <= 4:
        return r.int(1, 12) / r.pick([1, 2, 4, 10])
    if c <= 7:
        return r.int(1, 300) / 100
    return r.pick([1e-3, 50.0, 0.02, 7.25, 1 / 3])


def rates_row(r, n, density=None, allow=None):
    idx = list(range(n)) if allow is None else list(allow)
    if density is None:
        density = r.pick([0, 1, 1, 2, 3])
    if density == 0:
        sup = [r.pick(idx)]
    elif density == 3:
        sup = idx
    else:
        sup = r.sample(idx, r.int(1, min(len(idx), 3)))
    res = [0.0] * n
    for s in sup:
        res[s] = rate(r)
    return res


def ctmc(r, n=None, lo=1, hi=4, big=13, absorbing=True, self_loop=True, pool=LABELS, scales=True):
    n = n or size(r, lo, hi, big)
    R_ = []
    for s in range(n):
        if absorbing and n > 1 and r.chance(1, 8):
            R_.append([0.0] * n)
        else:
            allow = range(n) if self_loop or n == 1 else [x for x in range(n) if x != s]
            R_.append(rates_row(r, n, allow=allow))
    # the constructors only know about states which occur in a transition
    if all(x == 0.0 for x in R_[n - 1]) and all(R_[s][n - 1] == 0.0 for s in range(n)):
        R_[n - 1] = rates_row(r, n)
    for s in range(n):
        if all(x == 0.0 for x in R_[s]) and all(R_[t][s] == 0.0 for t in range(n)):
            R_[s] = rates_row(r, n)
    m = dict(kind="CTMC", n=n, labels=labels(r, n, pool=pool), R=R_, init=initial(r, n))
    if scales and r.chance(1, 25):  # another unit of time
        m["unit"] = r.pick([1e-4, 0.01, 60.0, 3600.0])
        m["R"] = [[x / m["unit"] for x in row] for row in R_]
    return m


OBS = ["a", "b", "c", "d", "xx", "A", "x", "ab", "10"]


def hmm(r, n=None, lo=1, hi=4, big=13, k=None, tiny=True):
    n = n or size(r, lo, hi, big)
    k = k or (r.int(1, 5) if not r.chance(1, 6) else r.int(6, len(OBS)))
    obs = OBS[:k]
    E = [row(r, k, tiny=tiny) for _ in range(n)]
    for o in range(k):
        if all(E[s][o] == 0.0 for s in range(n)):
            E[r.int(0, n - 1)] = row(r, k, density=3)
    return dict(kind="HMM", n=n, alphabet=obs, P=[row(r, n, tiny=tiny) for _ in range(n)], E=E,
                init=initial(r, n))


def gohmm(r, n=None, lo=1, hi=4, big=12, d=None, scales=True):
    n = n or size(r, lo, hi, big)
    d = d or r.pick([1, 1, 2, 2, 3, 3, 4])
    out = [[[r.int(-40, 40) / 10, r.int(3, 30) / 10] for _ in range(d)] for _ in range(n)]
    if scales and r.chance(1, 15):  # other units
        for k in range(d):
            x = r.pick([1, 0.1, 10.0, 100.0, 1e-4, 1e5])
            for o in out:
                o[k] = [o[k][0] * x, o[k][1] * x]
    return dict(kind="GOHMM", n=n, d=d, P=[row(r, n, tiny=False) for _ in range(n)], out=out, init=initial(r, n))


# expressions of PCTMC rates, written so that Python and sympy read them alike
PARAMS = ["p", "q", "r", "mu_1", "k2"]
# names to which sympy gives another meaning (the last ones are keywords of Prism)
POOLS = [PARAMS, ["p", "p1", "p10", "pp", "xp"], ["beta", "gamma", "N", "zeta", "Q"], ["E", "I", "S", "pi", "li"]]


def param_pool(r, prism=False):
    return POOLS[r.pick([0, 0, 1, 2, 2 if prism else 3])]


def monomial(r, params, maxpow=2, nmax=2):
    k = r.int(1, min(nmax, len(params)))
    ps = r.sample(params, k)
    fac = []
    c = r.pick([1, 1, 1, 2, 3, 0.5, 1.5])
    if c != 1:
        fac.append(str(c))
    for p in ps:
        e = r.int(1, maxpow) if r.chance(1, 3) else 1
        fac.append(p if e == 1 else "%s**%d" % (p, e))
    return "*".join(fac)


def const(r):
    return str(r.pick([1.0, 0.5, 2.0, 2.5, 0.25, 3.0, 0.1, 7.5, 1 / 3, 12.345678901234567]))


def expr(r, params, general=True):
    c = r.int(0, 7)
    if c == 0 or not params:
        return const(r)
    if c <= 4 or not general:
        return monomial(r, params)
    if c == 5:
        return "%s + %s" % (monomial(r, params), monomial(r, params))
    if c == 6:
        return "%s + %s" % (monomial(r, params), const(r))
    return "%s/(%s + %s)" % (monomial(r, params), r.pick(params), const(r))


def pvalue(r):
    c = r.int(0, 29)
    if c <= 20:
        return r.int(1, 30) / 10
    return r.int(1, 60) / 21 if c <= 28 else r.pick([0.003, 1.23456789e-5, 12.5, 40.0])


def pctmc(r, n=None, lo=1, hi=3, big=11, nparams=None, exprs=expr, general=True, absorbing=True, instantiated=True,
          pool=LABELS, prism=False):
    dense = bool(LARGE[0]) and n is None and r.chance(1, 3)
    if LARGE[0] and n is None:
        n = r.int(17, 18) if dense else r.int(8, 16)
    n = n or size(r, lo, hi, big)
    params = param_pool(r, prism)[:nparams if nparams is not None else r.pick([1, 1, 2, 2, 2, 3, 3, 4, 5])]
    T = [[None] * n for _ in range(n)]
    for s in range(n):
        if absorbing and n > 1 and r.chance(1, 10):
            continue
        k = n if dense else r.int(1, min(n, 3))
        for t in r.sample(range(n), k):
            # in a dense model (nearly) all expressions differ
            T[s][t] = "%r*%s" % ((1 + s * n + t) / 32, r.pick(params)) if dense and r.chance(7, 8) else exprs(r, params, general)
    for s in range(n):
        if all(x is None for x in T[s]) and all(T[t][s] is None for t in range(n)):
            T[s][r.int(0, n - 1)] = exprs(r, params, general)
    values = {p: pvalue(r) for p in params} if instantiated else {p: pvalue(r) for p in params if r.chance(1, 2)}
    return dict(kind="PCTMC", n=n, labels=labels(r, n, pool=pool), T=T, params=params, values=values,
                init=initial(r, n))


ANY = {"MC": mc, "MDP": mdp, "CTMC": ctmc, "HMM": hmm, "GOHMM": gohmm, "PCTMC": pctmc}


# ------------------------------------------------------------------ traces
def successors(m, s, a=None):
    """support of the transitions of a *spec* (state n is the 'init' state of labelled models)"""
    n = m["n"]
    if s == n and m["kind"] in ("MC", "MDP", "CTMC", "PCTMC"):
        return [i for i, x in enumerate(init_row(m["init"], n)) if x > 0]
    if m["kind"] in ("MC", "HMM", "GOHMM"):
        return [i for i, x in enumerate(m["P"][s]) if x > 0]
    if m["kind"] == "MDP":
        return [i for i, x in enumerate(m["P"][s][a]) if x > 0]
    if m["kind"] == "CTMC":
        return [i for i, x in enumerate(m["R"][s]) if x > 0]
    return [i for i, x in enumerate(m["T"][s]) if x is not None]


def dwell(r):
    return r.pick([0.05, 0.1, 0.25, 0.5, 1.0, 1.5, 2.0, 3.7, 0.003]) if r.chance(1, 2) else r.int(1, 400) / 100


def walk(r, m, length, timed=False, start=None):
    """(states, trace) following the support of the model; length = number of labels/observations (an absorbing
    state of an untimed CTMC is repeated, of a timed one ends the trace)"""
    k = m["kind"]
    n = m["n"]
    if k in ("HMM", "GOHMM"):
        s = r.pick([i for i, x in enumerate(init_row(m["init"], n)) if x > 0]) if start is None else start
        tr, st_ = [], []
        for _ in range(length):
            st_.append(s)
            if k == "HMM":
                tr.append(m["alphabet"][r.pick([i for i, x in enumerate(m["E"][s]) if x > 0])])
            else:
                tr.append([round(mu + sg * r.int(-15, 15) / 10, 3 if sg > 0.02 else 8) for mu, sg in m["out"][s]])
            s = r.pick(successors(m, s))
        return st_, tr
    s = n if start is None else start
    lab = m["labels"] + ["init"]
    tr, st_ = [lab[s]], [s]
    for _ in range(length - 1):
        if k == "MDP":
            a = r.pick([i for i in range(len(m["actions"])) if s == n or m["P"][s][i] is not None])
            tr.append(m["actions"][a])
            s = r.pick(successors(m, s, a))
        else:
            succ = successors(m, s)
            if not succ:
                if timed or k == "MC":
                    break
                succ = [s]
            if timed:
                tr.append(dwell(r))
            s = r.pick(succ)
        tr.append(lab[s])
        st_.append(s)
    return st_, tr


def mutate(r, m, tr, timed=False):
    """change one label/observation/action, possibly making the trace impossible"""
    tr = list(tr)
    if m["kind"] == "GOHMM":
        return tr
    if timed:
        pos = [i for i in range(0, len(tr), 2)]
    else:
        pos = list(range(len(tr)))
    i = r.pick(pos)
    if m["kind"] == "HMM":
        tr[i] = r.pick(m["alphabet"] + ["unknown"])
    elif m["kind"] == "MDP" and i % 2 == 1:
        tr[i] = r.pick(m["actions"] + ["noact"])
    else:
        tr[i] = r.pick(sorted(set(m["labels"])) + ["unknown", "init"])
    return tr


def step_of(m, timed):
    return 2 if m["kind"] == "MDP" or timed else 1


def times(r):
    return r.int(1, 4) if not r.chance(1, 16) else r.pick([7, 10, 64, 250, 1000, 3001])


def traces(r, m, nmax=6, lmax=7, timed=False, impossible=True, minlen=1, mult=True, first_init=True,
           wide=True):
    """list of [trace, multiplicity], distinct traces; shared prefixes and very different lengths are common"""
    res = []
    walks = []
    if wide and nmax > 1 and r.chance(1, 30):
        nmax, lmax = 6 * nmax, 2 * lmax
    want = r.int(2, nmax) if nmax > 1 and not r.chance(1, 10) else 1
    for _ in range(3 * want):
        if len(res) >= want:
            break
        c = r.int(0, 5)
        L = r.int(minlen, lmax)
        if walks and c <= 2 and not (timed and False):
            # continue from a prefix of an earlier walk
            st_, tr = r.pick(walks)
            k = r.int(1, len(st_))
            step = step_of(m, timed)
            if m["kind"] in ("HMM", "GOHMM"):
                if k < len(st_):
                    st2, tr2 = walk(r, m, max(1, L), start=st_[k])
                    new = (st_[:k] + st2, tr[:k] + tr2)
                else:
                    new = (st_, tr)
            else:
                st2, tr2 = walk(r, m, max(1, L), timed, start=st_[k - 1])
                new = (st_[:k - 1] + st2, tr[:(k - 1) * step] + tr2)
        else:
            new = walk(r, m, L, timed)
        if len(new[0]) < minlen:
            continue
        walks.append(new)
        tr = new[1]
        if impossible and r.chance(1, 8):
            tr = mutate(r, m, tr, timed)
        if all(tr != t for t, _ in res):
            res.append([tr, times(r) if mult else 1])
    if not res:
        for extra in range(50):
            new = walk(r, m, minlen + 1 + extra % 3, timed)
            if len(new[0]) >= minlen:
                break
        res.append([new[1], times(r) if mult else 1])
    unit = m.get("unit", 1.0)
    if timed and r.chance(1, 16):
        unit *= r.pick([1e-6, 1e-4, 0.01, 5.0])
    if timed and unit != 1.0:
        for t, _ in res:
            for i in range(1, len(t), 2):
                t[i] = t[i] * unit
    return res
