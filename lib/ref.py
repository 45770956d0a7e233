"""Reference semantics, written from the definitions in plain Python (no code of jajapy)."""
import math
from gen import init_row


class Ref:
    """labels[s], init[s], succ(s, action) -> {s': probability or rate}"""

    def __init__(self, spec, values=None):
        k = self.kind = spec["kind"]
        n = spec["n"]
        self.spec = spec
        ini = init_row(spec["init"], n)
        if k in ("HMM", "GOHMM"):
            self.n = n
            self.init = ini
            self.P = [{j: x for j, x in enumerate(row) if x > 0} for row in spec["P"]]
            if k == "HMM":
                self.E = [{spec["alphabet"][o]: x for o, x in enumerate(row) if x > 0} for row in spec["E"]]
            else:
                self.out = spec["out"]
            return
        self.n = n + 1
        self.labels = list(spec["labels"]) + ["init"]
        self.init = [0.0] * n + [1.0]
        ini_d = {j: x for j, x in enumerate(ini) if x > 0}
        if k == "MDP":
            self.actions = list(spec["actions"])
            self.P = [{a: {j: x for j, x in enumerate(row) if x > 0} for a, row in zip(self.actions, rows)
                       if row is not None} for rows in spec["P"]]
            self.P.append({a: dict(ini_d) for a in self.actions})
        else:
            if k == "PCTMC":
                vals = spec["values"] if values is None else values
                rows = [[0.0 if e is None else ev(e, vals) for e in row] for row in spec["T"]]
            else:
                rows = spec["P"] if k == "MC" else spec["R"]
            self.P = [{j: x for j, x in enumerate(row) if x > 0} for row in rows] + [ini_d]

    # probability of jumping, the chain a CTMC follows when time is ignored
    def jump(self, s):
        if self.kind in ("MC", "HMM", "GOHMM"):
            return self.P[s]
        e = sum(self.P[s].values())
        if e == 0:
            return {s: 1.0}
        return {j: x / e for j, x in self.P[s].items()}

    def exit(self, s):
        return sum(self.P[s].values())

    def emit(self, s, o):
        if self.kind == "HMM":
            return self.E[s].get(o, 0.0)
        if self.kind == "GOHMM":
            return gauss(self.out[s], o)
        return 1.0 if self.labels[s] == o else 0.0

    def prob(self, trace):
        """probability of a non-timed trace (MDP: given its actions; GoHMM: density)"""
        if self.kind == "MDP":
            obs, acts = trace[0::2], trace[1::2]
        else:
            obs, acts = trace, None
        cur = {s: p * self.emit(s, obs[0]) for s, p in enumerate(self.init) if p > 0}
        for k in range(1, len(obs)):
            nxt = {}
            for s, p in cur.items():
                if p == 0.0:
                    continue
                row = self.P[s].get(acts[k - 1], {}) if acts else self.jump(s)
                for t, q in row.items():
                    e = self.emit(t, obs[k])
                    if e:
                        nxt[t] = nxt.get(t, 0.0) + p * q * e
            cur = nxt
        return sum(cur.values())

    def density(self, trace):
        """density of a timed trace"""
        obs, times = trace[0::2], trace[1::2]
        cur = {s: p for s, p in enumerate(self.init) if p > 0 and self.labels[s] == obs[0]}
        for k in range(1, len(obs)):
            nxt = {}
            for s, p in cur.items():
                d = math.exp(-self.exit(s) * times[k - 1])
                for t, q in self.P[s].items():
                    if self.labels[t] == obs[k]:
                        nxt[t] = nxt.get(t, 0.0) + p * q * d
            cur = nxt
        return sum(cur.values())

    def timed_support(self, trace):
        """the labels of a timed trace are possible"""
        obs = trace[0::2]
        cur = {s for s, p in enumerate(self.init) if p > 0 and self.labels[s] == obs[0]}
        for o in obs[1:]:
            cur = {t for s in cur for t, q in self.P[s].items() if q > 0 and self.labels[t] == o}
        return bool(cur)

    def loglik(self, traces, timed=False):
        """(average, number of possible traces)"""
        tot, n, possible = 0.0, 0, 0
        for tr, m in traces:
            p = self.density(tr) if timed else self.prob(tr)
            if p > 0:
                tot += m * math.log(p)
                possible += 1
            n += m
        return tot / n, possible


def underflow(ref, traces, timed=False):
    """some trace has a positive probability too small (or a density too large) for double precision: not comparable"""
    for t, _ in traces:
        p = ref.density(t) if timed else ref.prob(t)
        if not p < 1e200 or p < 1e-200 and (p > 0 or ref.kind == "GOHMM" or (timed and ref.timed_support(t))):
            return True
    return False


def gauss(params, x):
    d = 1.0
    for (mu, sg), v in zip(params, x):
        d *= math.exp(-0.5 * ((v - mu) / sg) ** 2) / (sg * math.sqrt(2 * math.pi))
    return d


def sy(e):
    """e as a sympy expression, all the names being symbols"""
    import re
    import sympy
    e = str(e)
    names = {x: sympy.Symbol(x) for x in re.findall(r"(?<![\w.])[A-Za-z_]\w*", e)}
    names["Float"] = lambda x: sympy.Float(float(x))
    return sympy.sympify(e, locals=names)


def text(e):
    """sympy expression as a string with all the digits"""
    global _printer
    if _printer is None:
        from sympy.printing.str import StrPrinter

        class P(StrPrinter):
            def _print_Float(self, expr):
                return repr(float(expr))
        _printer = P()
    return _printer.doprint(e)


_printer = None


def ev(e, values):
    return float(eval(e, {"__builtins__": {}}, dict(values)))


def paths_prob(ref, trace, timed=False):
    """the same by explicit enumeration of all state paths (small cases)"""
    if ref.kind == "MDP" or timed:
        obs, side = trace[0::2], trace[1::2]
    else:
        obs, side = trace, None

    def rec(s, k):
        e = ref.emit(s, obs[k])
        if e == 0.0:
            return 0.0
        if k == len(obs) - 1:
            return e
        if timed:
            f = math.exp(-ref.exit(s) * side[k])
            row = ref.P[s]
        else:
            f = 1.0
            row = ref.P[s].get(side[k], {}) if ref.kind == "MDP" else ref.jump(s)
        return e * f * sum(q * rec(t, k + 1) for t, q in row.items())
    return sum(p * rec(s, 0) for s, p in enumerate(ref.init) if p > 0)
