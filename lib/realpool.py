"""Runs an operation in a new interpreter with the real multiprocessing.Pool."""
import json, os, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


def call(op, case):
    d = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
    inp, out = os.path.join(d, "in.json"), os.path.join(d, "out.json")
    json.dump(dict(op=op, case=case), open(inp, "w"))
    p = subprocess.run([sys.executable, os.path.join(HERE, "realpool.py"), inp, out], stdout=subprocess.DEVNULL,
                       stderr=subprocess.PIPE, timeout=200, cwd=d)
    if not os.path.exists(out):
        raise RuntimeError("subprocess failed: " + p.stderr.decode()[-2000:])
    return json.load(open(out))


def main():
    sys.path.insert(0, HERE)
    import env
    env.setup("multi", inline_pool=False)
    sys.modules["shard"] = type(sys)("shard")
    sys.modules["shard"].Violation = AssertionError
    import build, jajapy as ja
    req = json.load(open(sys.argv[1]))
    case = req["case"]
    m = build.build_any(case)
    t = build.set_type(case["model"], case.get("timed", False))
    s = build.mkset(case["traces"], t)
    if req["op"] == "loglik":
        res = float(m.logLikelihood(s))
    elif req["op"] == "fit":
        h = ja.BW().fit(s, initial_model=m, stormpy_output=False, verbose=0, **case.get("opts", {}))
        res = build.snapshot(h)
    with open(sys.argv[2] + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(sys.argv[2] + ".tmp", sys.argv[2])


if __name__ == "__main__":
    main()
