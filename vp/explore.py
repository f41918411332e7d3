"""Symbolic exploration of scenarios in one worker process."""
import gc
import json as _json
import os
import sys
import threading
import time

from . import hooks, instrument, iso, jsonmodel, sym
from .engine import ENG, EngineError, PathAbort, Violation
from .source import SymS

_snap = None


def load(scen_name, extra=()):
    """Import the instrumented library, harness models and one scenario module."""
    global _snap
    sys.dont_write_bytecode = True
    sys.path.append("/opt/venv/lib/python3.12/site-packages")
    instrument.HARNESS.update({"vpmodels", "vpgrid", "graphs", "backend_stubs", "vpb1", "vpb2", "vpbp", scen_name})
    instrument.install()
    install_models()
    import importlib
    importlib.import_module("jsonpickle")
    importlib.import_module("vpmodels")
    mod = importlib.import_module(scen_name)
    for name in getattr(mod, "MODELS", ()):
        importlib.import_module("vp." + name).install()
    from .state import Snapshot
    _snap = Snapshot()
    return mod


def install_models():
    import json
    M = hooks.MODELS
    libs = [json]
    for n in ("simplejson", "ujson"):
        try:
            libs.append(__import__(n))
        except ImportError:
            pass
    for m in libs:
        M[m.dumps] = jsonmodel.make_dumps(m.dumps)
        M[m.loads] = jsonmodel.make_loads(m.loads)
    M[eval] = hooks.m_eval
    M[exec] = hooks.m_exec
    M[compile] = hooks.m_compile


def run_path(fn, params, prefix, want_record):
    """Execute one path.  Returns (status, what, record, alternatives)."""
    ENG.start(prefix)
    hooks.reset_path()
    _snap.restore()
    S = SymS(params)
    status, what = "ok", ""
    try:
        fn(S)
    except PathAbort:
        status = "abort"
    except Violation as e:
        status, what = "violation", e.what
    except EngineError as e:
        status, what = "error", str(e)
    except RecursionError as e:
        status, what = "exception", "RecursionError: %s" % e
    except Exception as e:  # noqa: BLE001
        status, what = "exception", describe(e)
    rec = None
    if status in ("violation", "exception", "error") or (status == "ok" and want_record):
        rec = record(S, status)
        if rec is None:
            status = "abort" if status == "ok" else status
    return status, what, rec, S


def describe(e):
    import traceback
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for f in reversed(tb):
        where = "%s:%d" % (f.filename, f.lineno)
        break
    return "%s: %s (%s)" % (type(e).__name__, str(e)[:300], where)


def record(S, status):
    try:
        ENG.flush()
        ENG.get_model()
        obs = []
        if status == "ok":
            try:
                obs = [_json.loads(_json.dumps(iso.canon(o, sym.evaluate))) for o in S.observed]
            except (UnicodeError, EngineError):
                obs = None
        vals = ENG.model_values()
    except PathAbort:
        return None
    return {"values": vals, "obs": obs}


def explore(fn, params, prefixes, seconds, max_paths, sample_every, counter):
    """Depth first from the given prefixes until time or path budget runs out."""
    t0 = time.perf_counter()
    stack = list(reversed(prefixes))
    out = {"paths": 0, "aborted": 0, "decisions": 0, "violations": [], "errors": [],
           "samples": [], "reached": set(), "incomplete": 0, "maxdec": 0}
    n = 0
    while stack and n < max_paths and (n == 0 or time.perf_counter() - t0 < seconds):
        prefix = stack.pop()
        counter[0] += 1
        want = counter[0] <= 2 or counter[0] % sample_every == 0
        status, what, rec, S = run_path(fn, params, prefix, want)
        n += 1
        out["decisions"] += max(0, len(ENG.decisions) - len(prefix)) + (1 if prefix else 0)
        out["maxdec"] = max(out["maxdec"], len(ENG.decisions))
        out["reached"] |= S.reached
        if ENG.incomplete:
            out["incomplete"] += 1
        if status == "error":
            out["errors"].append({"what": what, "rec": rec, "prefix": prefix})
        elif status == "abort":
            out["aborted"] += 1
        else:
            out["paths"] += 1
        if status in ("violation", "exception"):
            out["violations"].append(
                {"status": status, "what": what, "rec": rec, "prefix": list(ENG.decisions)})
        elif status == "ok" and rec is not None:
            out["samples"].append(rec)
        stack.extend(ENG.alternatives)
        if len(out["violations"]) >= 5:
            break
        if n % 400 == 0:
            gc.collect()
    out["left"] = list(reversed(stack))
    return out


def in_big_stack(f):
    sys.setrecursionlimit(7000)
    threading.stack_size(1 << 29)
    t = threading.Thread(target=f, daemon=True)
    t.start()
    t.join()
