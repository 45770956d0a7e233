"""One shard of a check: searches every sub-check of a property."""
import argparse, errno, hashlib, importlib, json, os, signal, sys, time, traceback, zlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import engine, env  # noqa

SHRINK_S = 12
# the cheap checks look at more cases
FACTOR = dict(C02=2, C05=3, C06=2, C07=2, C08=3, C09=2, C10=2, C11=2, C17=2, C18=4, C19=3, C20=2, C23=4, C24=3, C29=4,
              C30=4, C31=5)


class Violation(AssertionError):
    pass


class Timeout(BaseException):
    pass


class Infra(BaseException):
    pass


class Budget(Exception):
    pass


class Ctx:
    def __init__(self, mode):
        self.mode = mode
        self.tags = {}
        self.trivial = True
        self.scratch = os.environ.get("VERIF_SCRATCH", "/tmp")

    def tag(self, name, n=1):
        self.tags[name] = self.tags.get(name, 0) + n

    def nontrivial(self, cond=True):
        if cond:
            self.trivial = False

    def check(self, cond, msg="", *args):
        if not cond:
            raise Violation(str(msg) + "".join("\n  " + repr(a)[:1500] for a in args))

    def close(self, got, want, msg="", rel=1e-9, abs_=1e-12):
        ok = (got == want) or abs(got - want) <= abs_ + rel * max(abs(got), abs(want))
        if not ok:
            raise Violation("%s: got %r, expected %r" % (msg, got, want))

    def raises(self, exc, f, msg):
        try:
            r = f()
        except exc:
            return
        raise Violation("%s: no exception raised, returned %r" % (msg, type(r)))

    def path(self, name):
        d = os.path.join(self.scratch, "case")
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, name)


INFRA = {errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EAGAIN, errno.EDQUOT}


def infra(e):
    return isinstance(e, MemoryError) or (isinstance(e, OSError) and e.errno in INFRA)


def run_case(sub, case, mode):
    """None, or the message of the violation; infrastructure errors propagate as Infra"""
    ctx = Ctx(mode)
    env.reseed(zlib.crc32(json.dumps(case, sort_keys=True).encode()))

    def alarm(*_):
        raise Timeout()
    old = signal.signal(signal.SIGPROF, alarm)
    signal.setitimer(signal.ITIMER_PROF, sub.cpu)
    msg, timeout = None, False
    try:
        sub.run(json.loads(json.dumps(case)), ctx)
    except Timeout:
        msg, timeout = "does not terminate within %d s of CPU time" % sub.cpu, True
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        if infra(e):
            raise Infra("infrastructure: %r" % e)
        msg = "".join(traceback.format_exception(e)[-6:]) if not isinstance(e, Violation) else \
            str(e) + "\n(" + traceback.format_tb(e.__traceback__)[-2].strip().split("\n")[0] + ")"
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    return msg, timeout, ctx


class Search:
    def __init__(self, sub, prop, mode, hashseed, budget):
        self.sub, self.prop, self.mode, self.hashseed = sub, prop, mode, hashseed
        self.cases = 0
        self.nontrivial = set()
        self.tags = {}
        self.samples = []
        self.best = None
        self.budget_hit = 0
        self.deadline = time.time() + budget

    def fails(self, case, shrinking=False):
        if not shrinking and time.time() > self.deadline:
            self.budget_hit = 1
            raise Budget()
        msg, timeout, ctx = run_case(self.sub, case, self.mode)
        txt = json.dumps(case, sort_keys=True)
        if not shrinking:
            self.cases += 1
            for t, c in ctx.tags.items():
                self.tags[t] = self.tags.get(t, 0) + c
            if not ctx.trivial:
                self.nontrivial.add(hashlib.sha1(txt.encode()).hexdigest()[:16])
                if not self.samples or len(txt) < len(json.dumps(self.samples[0])) and self.cases > 20:
                    self.samples = [case]
        if msg is not None:
            if timeout and shrinking:
                return False
            if self.best is None or len(txt) < self.best[0]:
                self.best = (len(txt), dict(property=self.prop, sub=self.sub.name, case=case, mode=self.mode,
                                            hashseed=self.hashseed, message=msg, timeout=timeout))
            return True
        return False

    def run(self, n, seed):
        try:
            choices = engine.search(self.sub.gen, self.fails, n, seed)
        except Budget:
            return
        if choices is not None and not self.best[1]["timeout"]:
            engine.shrink(self.sub.gen, lambda c: self.fails(c, True), choices, SHRINK_S)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--nshards", type=int, default=1)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    a = ap.parse_args()
    sys.setrecursionlimit(3000)
    if a.replay:
        rep = json.load(open(a.replay))
        mode = rep["mode"]
    else:
        mode = "one" if a.shard % 2 else "multi"
    env.setup(mode)
    mod = importlib.import_module("props." + a.prop.lower())
    if a.replay:
        sub = [s for s in mod.SUBS if s.name == rep["sub"]][0]
        out = os.dup(1)
        devnull = os.open(os.devnull, os.O_WRONLY)
        sys.stdout.flush()
        os.dup2(devnull, 1)
        msg, timeout, ctx = run_case(sub, rep["case"], mode)
        sys.stdout.flush()
        os.dup2(out, 1)
        print("case:", json.dumps(rep["case"])[:5000])
        print("result:", msg or "holds")
        return 1 if msg else 0
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    res = dict(subs={}, violations=[], rules={}, meta=dict(assumptions=getattr(mod, "ASSUMPTIONS", [])), error=None)
    budget_total = 120 if a.tier == "quick" else 1500
    t0 = time.time()
    hashseed = int(os.environ.get("PYTHONHASHSEED", "0"))
    subs = [s for s in mod.SUBS if not a.sub or s.name == a.sub]
    regdir = os.path.join(os.path.dirname(HERE), "regress", a.prop)
    try:
        for sub in subs:
            res["rules"][sub.name] = sub.rule
            if sub.mode not in ("any", mode):
                continue
            total = int(sub.quick * FACTOR.get(a.prop, 1)) if a.tier == "quick" and sub.mode == "any" else \
                sub.quick if a.tier == "quick" else sub.thorough
            nsh = a.nshards if sub.mode == "any" else a.nshards // 2
            k = a.shard if sub.mode == "any" else a.shard // 2
            n = total // nsh + (1 if k < total % nsh else 0)
            left = budget_total - (time.time() - t0)
            s = Search(sub, a.prop, mode, hashseed, max(5, left))
            if os.path.isdir(regdir):
                for f in sorted(os.listdir(regdir)):
                    rep = json.load(open(os.path.join(regdir, f)))
                    if rep["sub"] == sub.name:
                        if s.fails(rep["case"]):
                            break
            t1 = time.time()
            if n > 0 and s.best is None:
                seed = zlib.crc32(("%d %s %s %d" % (a.seed, a.prop, sub.name, a.shard)).encode())
                s.run(n, seed)
            sys.stderr.write("%s: %d cases %.1f s\n" % (sub.name, s.cases, time.time() - t1))
            res["subs"][sub.name] = dict(cases=s.cases, nontrivial=sorted(s.nontrivial), tags=s.tags,
                                         samples=s.samples[:1], budget_hit=s.budget_hit)
            if s.best is not None:
                res["violations"].append(s.best[1])
                break
    except BaseException as e:  # error of the harness
        res["error"] = "".join(traceback.format_exception(e))
    if a.out:
        with open(a.out + ".tmp", "w") as f:
            json.dump(res, f)
        os.rename(a.out + ".tmp", a.out)
    else:
        sys.stderr.write(json.dumps(dict((k, dict(c=v["cases"], nt=len(v["nontrivial"]), tags=v["tags"]))
                                         for k, v in res["subs"].items()), indent=1) + "\n")
        if res["violations"]:
            sys.stderr.write(json.dumps(res["violations"][0], indent=1)[:6000].replace("\\n", "\n") + "\n")
        if res["error"]:
            sys.stderr.write(res["error"] + "\n")
    return 2 if res["error"] else (1 if res["violations"] else 0)


if __name__ == "__main__":
    sys.modules["shard"] = sys.modules["__main__"]
    sys.exit(main())
