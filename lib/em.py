"""Reference Expectation-Maximisation in plain Python (no code of jajapy), for the models of ref.Ref."""
import copy
import math
from ref import Ref, gauss


def clone(ref):
    r = copy.copy(ref)
    r.P = [({a: dict(x) for a, x in row.items()} if ref.kind == "MDP" else dict(row)) for row in ref.P]
    r.init = list(ref.init)
    if ref.kind == "HMM":
        r.E = [dict(x) for x in ref.E]
    if ref.kind == "GOHMM":
        r.out = [[list(x) for x in row] for row in ref.out]
    return r


def posterior(ref, trace, timed):
    """(probability, gamma[k][s], xi[k] = {(s,t): p}) over the T observed positions, both normalised"""
    k = ref.kind
    if k == "MDP" or timed:
        obs, side = trace[0::2], trace[1::2]
    else:
        obs, side = trace, [None] * (len(trace) - 1)
    T = len(obs)

    def trans(s, i):
        if k == "MDP":
            return ref.P[s].get(side[i], {})
        if timed:
            d = math.exp(-ref.exit(s) * side[i])
            return {t: q * d for t, q in ref.P[s].items()}
        return ref.jump(s)
    fw = [{s: p * ref.emit(s, obs[0]) for s, p in enumerate(ref.init) if p > 0 and ref.emit(s, obs[0]) > 0}]
    for i in range(T - 1):
        nxt = {}
        for s, p in fw[i].items():
            for t, q in trans(s, i).items():
                e = ref.emit(t, obs[i + 1])
                if e > 0:
                    if p * q * e < 1e-200 and q > 0:
                        raise Degenerate("underflow")
                    nxt[t] = nxt.get(t, 0.0) + p * q * e
        fw.append(nxt)
    if any(not x < 1e200 for f in fw for x in f.values()):
        raise Degenerate("overflow")
    if any(0 < x < 1e-200 for x in fw[0].values()):
        raise Degenerate("underflow")
    tot = sum(fw[-1].values())
    if tot == 0.0:
        return 0.0, None, None
    bw = [None] * T
    bw[T - 1] = {s: 1.0 for s in fw[-1]}
    for i in range(T - 2, -1, -1):
        bw[i] = {s: 0.0 for s in fw[i]}
        for s in fw[i]:
            for t, q in trans(s, i).items():
                e = ref.emit(t, obs[i + 1])
                b = bw[i + 1].get(t, 0.0)
                if q > 0 and e > 0 and b > 0:
                    if q * e * b < 1e-200:
                        raise Degenerate("underflow")
                    bw[i][s] += q * e * b
    if any(not x < 1e200 for b in bw for x in b.values()):
        raise Degenerate("overflow")
    gamma = [{s: p * bw[i][s] / tot for s, p in fw[i].items()} for i in range(T)]
    xi = [{(s, t): p * q * ref.emit(t, obs[i + 1]) * bw[i + 1][t] / tot
           for s, p in fw[i].items() for t, q in trans(s, i).items() if t in bw[i + 1]} for i in range(T - 1)]
    return tot, gamma, xi


class Degenerate(Exception):
    """the step leaves the domain where the numbers can be compared (vanishing counts or deviations)"""


class Vanishing(Degenerate):
    pass


def step(ref, traces, timed=False, fixed=(), sigma="old"):
    """one EM iteration: (new Ref, sum of multiplicity*log P under the old one); raises Degenerate.
    fixed: set of (s,t) of CTMC rates which keep their value
    sigma: GoHMM deviations around the mean before ("old") or after ("new") the step, both being EM updates"""
    k = ref.kind
    n = ref.n
    if k == "GOHMM":
        vanishing(ref, traces)
    num = [{} for _ in range(n)]          # (action,) t -> expected count
    den = [0.0] * n if k != "MDP" else [{} for _ in range(n)]
    E = [{} for _ in range(n)]
    init = [0.0] * n
    mu = [[0.0] * ref.spec["d"] for _ in range(n)] if k == "GOHMM" else None
    va = copy.deepcopy(mu)
    wobs = []
    ll, possible = 0.0, 0
    for tr, m in traces:
        p, gamma, xi = posterior(ref, tr, timed)
        if p == 0.0:
            continue
        if p < 1e-200:
            raise Degenerate("underflow")
        possible += 1
        ll += m * math.log(p)
        T = len(gamma)
        for s, g in gamma[0].items():
            init[s] += m * g
        for i in range(T):
            last = i == T - 1
            if k == "MDP":
                if not last:
                    a = tr[2 * i + 1]
                    for s, g in gamma[i].items():
                        den[s][a] = den[s].get(a, 0.0) + m * g
                    for (s, t), x in xi[i].items():
                        d = num[s].setdefault(a, {})
                        d[t] = d.get(t, 0.0) + m * x
                continue
            if timed:
                if not last:
                    for s, g in gamma[i].items():
                        den[s] += m * g * tr[2 * i + 1]
                    for (s, t), x in xi[i].items():
                        num[s][t] = num[s].get(t, 0.0) + m * x
                continue
            for s, g in gamma[i].items():
                den[s] += m * g
                if last:  # the next state is not observed
                    for t, q in ref.jump(s).items():
                        num[s][t] = num[s].get(t, 0.0) + m * g * q
                if k == "HMM":
                    E[s][tr[i]] = E[s].get(tr[i], 0.0) + m * g
                elif k == "GOHMM":
                    wobs.append((s, m * g, tr[i]))
                    for d in range(len(mu[s])):
                        mu[s][d] += m * g * tr[i][d]
            if not last:
                for (s, t), x in xi[i].items():
                    num[s][t] = num[s].get(t, 0.0) + m * x
    if not possible:
        return None, 0.0
    new = clone(ref)
    for s in range(n):
        if k == "MDP":
            for a in den[s]:
                if den[s][a] > 0:
                    check(den[s][a])
                    new.P[s][a] = {t: num[s].get(a, {}).get(t, 0.0) / den[s][a] for t in ref.P[s].get(a, {})}
            continue
        if den[s] == 0.0:
            continue
        check(den[s])
        if k == "CTMC" and not ref.P[s]:
            continue  # absorbing: no rate to change
        new.P[s] = {t: (ref.P[s][t] if (s, t) in fixed else num[s].get(t, 0.0) / den[s]) for t in ref.P[s]}
        if k == "HMM":
            new.E[s] = {o: E[s].get(o, 0.0) / den[s] for o in ref.E[s]}
        elif k == "GOHMM":
            for d in range(len(mu[s])):
                old = ref.out[s][d]
                v = sum(w * (x[d] - old[0]) ** 2 for s_, w, x in wobs if s_ == s)
                mean = mu[s][d] / den[s]
                sg = math.sqrt(v / den[s])
                v2 = sum(w * (x[d] - mean) ** 2 for s_, w, x in wobs if s_ == s)
                sg2 = math.sqrt(v2 / den[s])
                new.out[s][d] = [mean, sg if sigma == "old" else sg2]
    if k in ("HMM", "GOHMM"):
        tot = sum(init)
        new.init = [x / tot for x in init]
    return new, ll


def vanishing(ref, traces):
    """raises Vanishing when a deviation is negligible with respect to what is observed"""
    for d in range(ref.spec["d"]):
        big = max(abs(x[d] - o[d][0]) for t, _ in traces for x in t for o in ref.out)
        top = max(abs(x[d]) for t, _ in traces for x in t)
        if any(o[d][1] < max(1e-3 * big, 1e-6 * top) or o[d][1] == 0.0 for o in ref.out):
            raise Vanishing("vanishing deviation")


def check(x):
    if x < 1e-200:
        raise Degenerate("vanishing count")


def loglik(ref, traces, timed=False):
    """unnormalised, impossible traces skipped"""
    res = 0.0
    for t, m in traces:
        p = ref.density(t) if timed else ref.prob(t)
        if p > 0:
            res += m * math.log(p)
    return res
