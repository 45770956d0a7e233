"""Choice-sequence property-based testing engine (the design of Hypothesis, without its skew towards tiny and
near-duplicate cases, which made 4 of 5 cases trivial here): a generator asks its source for bounded integers; the
list of the answers identifies the case; a failing case is shrunk by deleting, zeroing and lowering choices and
generating again, so every shrunk case is one the generator can make."""
import random
import time


class R:
    """source of choices: random, or the replay of a list of choices (0 once it is exhausted)"""

    def __init__(self, rnd=None, choices=None, small=False):
        self.rnd, self.given, self.small = rnd, choices, small
        self.made = []

    def int(self, a, b):
        if a >= b:
            return a
        if self.given is not None:
            i = len(self.made)
            off = min(self.given[i], b - a) if i < len(self.given) else 0
        elif self.small and self.rnd.random() < 0.4:
            off = 0
        else:
            off = self.rnd.randrange(b - a + 1)
        self.made.append(off)
        return a + off

    def pick(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def chance(self, num, den):
        """True with probability num/den; shrinks to False"""
        return self.int(0, den - 1) >= den - num

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = self.int(i, len(seq) - 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def sample(self, seq, k):
        return self.shuffle(seq)[:k]

    def float(self, a, b, steps=1000):
        return a + (b - a) * self.int(0, steps) / steps


def search(gen, test, n, seed):
    """calls test(case) (true when the case fails) on n generated cases; the choices of the first failing one"""
    rnd = random.Random(seed)
    for i in range(n):
        r = R(rnd, small=(i % 16 == 15))
        case = gen(r)
        if test(case):
            return r.made
    return None


def shrink(gen, test, choices, seconds):
    """the smallest failing choices found (shortlex)"""
    end = time.time() + seconds
    best = list(choices)

    def attempt(cand):
        nonlocal best
        if time.time() > end:
            raise TimeoutError
        r = R(choices=cand)
        try:
            case = gen(r)
        except (IndexError, ValueError, ZeroDivisionError, AssertionError):  # the generator cannot use these choices
            return False
        if (len(r.made), r.made) >= (len(best), best):
            return False
        if test(case):
            best = r.made
            return True
        return False

    try:
        changed = True
        while changed:
            changed = False
            k = len(best) // 2
            while k >= 1:                      # cut the end
                if k < len(best) and attempt(best[:-k]):
                    changed = True
                k //= 2
            size = max(1, len(best) // 3)
            while size >= 1:                   # delete, or zero, blocks
                i = 0
                while i < len(best):
                    if attempt(best[:i] + best[i + size:]) or \
                            (any(best[i:i + size]) and attempt(best[:i] + [0] * len(best[i:i + size]) + best[i + size:])):
                        changed = True
                    else:
                        i += size
                size //= 2
            i = 0
            while i < len(best):               # one element less: lower a length and delete what it brought
                if 0 < best[i] < 60:
                    for size in (1, 2, 3, 5, 8, 13):
                        if attempt(best[:i] + [best[i] - 1] + best[i + 1 + size:]):
                            changed = True
                            break
                i += 1
            for i in range(len(best)):         # lower values
                lo = 0
                while i < len(best) and best[i] > lo:
                    v = (lo + best[i]) // 2
                    if attempt(best[:i] + [v] + best[i + 1:]):
                        changed = True
                    else:
                        lo = v + 1
    except TimeoutError:
        pass
    return best
