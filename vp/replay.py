"""Concrete runs of scenarios on the unmodified library.

    replay.py FILE            re-run one recorded counterexample
    replay.py --batch FILE    run many cases, results as JSON on stdout
"""
import builtins
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")


def setup():
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(HERE, "scen"))
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    sys.setrecursionlimit(2500)


def scenario(modname, name):
    mod = importlib.import_module(modname)
    for sc in mod.SCENARIOS:
        if sc["name"] == name:
            return sc["fn"]
    raise SystemExit("no scenario " + name)


def patch_eval():
    from vp import source
    real = {n: getattr(builtins, n) for n in ("eval", "exec")}

    def wrap(name):
        def f(src, *a, **k):
            fr = sys._getframe(1)
            if os.path.join(REPO, "jsonpickle") in fr.f_code.co_filename:
                # recorded, never evaluated
                source.EVALS.append((name, src))
                return None
            if not a and not k:
                return real[name](src, fr.f_globals, fr.f_locals)
            return real[name](src, *a, **k)
        return f
    for n in real:
        setattr(builtins, n, wrap(n))


def run(case, snap):
    from vp import iso, source
    fn = scenario(case["module"], case["scenario"])
    snap.restore()
    status, what, S = source.run_concrete(fn, case["params"], case["values"])
    try:
        obs = [json.loads(json.dumps(iso.canon(o, None))) for o in S.observed]
    except UnicodeError:
        obs = None
    return {"status": status, "what": what, "obs": obs}


def main(argv):
    setup()
    import gc
    gc.disable()
    batch = argv[0] == "--batch"
    with open(argv[-1], encoding="utf-8") as f:
        data = json.load(f)
    cases = data if batch else [data]
    import jsonpickle
    if not os.path.abspath(jsonpickle.__file__).startswith(REPO + os.sep):
        raise SystemExit("wrong jsonpickle: " + jsonpickle.__file__)
    import vpmodels  # noqa: F401
    for m in {c["module"] for c in cases}:
        importlib.import_module(m)
    patch_eval()
    from vp.state import Snapshot
    snap = Snapshot()
    out = [run(c, snap) for c in cases]
    if batch:
        json.dump(out, sys.stdout)
        return 0
    r = out[0]
    print(r["status"], r["what"])
    return 1 if r["status"] in ("violation", "exception") else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
