"""Entry point of every check:  check.py C01

Explores the scenarios of one property symbolically on the current working tree of the
library, replays every counterexample and a sample of the paths on the unmodified code, and
writes evidence/<id>.json.
"""
import json
import os
import random
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "scen"))
sys.dont_write_bytecode = True

NATIVE = "/opt/venv/bin/python"
WALL = {"quick": 100.0, "thorough": 600.0}
MAX_SAMPLES = {"quick": 400, "thorough": 2000}


def native_env():
    env = dict(os.environ)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONPYCACHEPREFIX"] = "/nonexistent-pycache"
    env["PYTHONHASHSEED"] = "0"
    env.pop("PYTHONPATH", None)
    return env


def replay_batch(cases, timeout=300):
    if not cases:
        return []
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(cases, f)
    try:
        p = subprocess.run(
            [NATIVE, os.path.join(HERE, "vp", "replay.py"), "--batch", f.name],
            capture_output=True, text=True, env=native_env(), timeout=timeout, cwd=HERE)
    except subprocess.TimeoutExpired:
        return [{"status": "timeout", "what": "no answer", "obs": None}] * len(cases)
    finally:
        os.unlink(f.name)
    if p.returncode != 0:
        if len(cases) == 1:
            return [{"status": "crash", "what": p.stderr[-2000:], "obs": None}]
        return [replay_batch([c], 60)[0] for c in cases[:40]]
    return json.loads(p.stdout)


# --------------------------------------------------------------------------- workers
def worker(conn, mod, tier):
    from vp import explore, hooks
    import gc
    gc.disable()
    counters = {}

    def loop():
        while True:
            job = conn.recv()
            if job is None:
                break
            idx, prefixes, seconds = job
            sc = mod.SCENARIOS[idx]
            params = sc.get(tier) or sc["quick"]
            st = explore.ENG.stats
            for k in st:
                st[k] = 0.0 if k == "solver_s" else 0
            explore.ENG.cut_reasons = {}
            hooks.ENTERED.clear()
            try:
                out = explore.explore(
                    sc["fn"], params, prefixes, seconds, 4000, sc.get("sample", 25),
                    counters.setdefault(idx, [0]))
                out["stats"] = dict(st)
                out["cut_reasons"] = dict(explore.ENG.cut_reasons)
                out["entered"] = set(hooks.ENTERED)
            except BaseException as e:  # noqa: BLE001
                import traceback
                out = {"crash": "%r\n%s" % (e, traceback.format_exc()[-3000:])}
            conn.send((idx, out))
            gc.collect()
    explore.in_big_stack(loop)
    os._exit(0)


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in WALL:
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.rng = random.Random(self.seed)
        self.stats = {}
        self.cut_reasons = {}
        self.entered = set()
        self.paths = self.aborted = self.decisions = self.incomplete = 0
        self.samples = []
        self.nsamples = 0
        self.confirmed = []
        self.known = {}
        self.unconfirmed = []
        self.errors = []
        self.reached = {}
        self.per = {}
        self.replays = 0
        self.known_again = 0

    def case(self, idx, rec):
        sc = self.mod.SCENARIOS[idx]
        return {"module": self.pid.lower(), "scenario": sc["name"],
                "params": sc.get(self.tier) or sc["quick"], "values": rec["values"]}

    def run(self):
        from vp import explore
        import multiprocessing as mp
        self.mod = explore.load(self.pid.lower())
        n = min(8, os.cpu_count() or 1)
        ctx = mp.get_context("fork")
        conns, procs = [], []
        for _ in range(n):
            a, b = ctx.Pipe()
            p = ctx.Process(target=worker, args=(b, self.mod, self.tier), daemon=True)
            p.start()
            b.close()
            conns.append(a)
            procs.append(p)
        scs = self.mod.SCENARIOS
        pending = {i: [[]] for i in range(len(scs))}
        if self.tier == "quick":
            pending = {i: p for i, p in pending.items() if scs[i].get("quick") is not None}
        busy = {}
        idle = list(range(n))
        wall = getattr(self.mod, "WALL", {}).get(self.tier, WALL[self.tier])
        deadline = self.t0 + float(os.environ.get("VP_WALL", wall))
        order = list(pending)
        self.per = {i: {"paths": 0, "aborted": 0, "left": 0, "max_decisions": 0} for i in order}
        turn = 0
        stop = False
        while True:
            now = time.time()
            if now > deadline:
                stop = True
            while idle and not stop:
                cand = [i for i in order if pending[i]]
                if not cand:
                    break
                i = cand[turn % len(cand)]
                turn += 1
                q = pending[i]
                nq = sum(len(p) for p in pending.values())
                if nq < 3 * n:
                    take, secs = 1, 0.25
                else:
                    take, secs = max(1, min(len(q) // n, 40)), 1.5
                chunk = []
                for _ in range(take):
                    if q:
                        chunk.append(q.pop(self.rng.randrange(len(q))))
                w = idle.pop()
                conns[w].send((i, chunk, secs))
                busy[w] = i
            if not busy:
                break
            for w in mp.connection.wait([conns[w] for w in busy], timeout=1.0):
                wi = conns.index(w)
                try:
                    idx, out = w.recv()
                except EOFError:
                    self.errors.append({"what": "worker died"})
                    del busy[wi]
                    continue
                del busy[wi]
                idle.append(wi)
                self.absorb(idx, out, pending)
                if self.confirmed or len(self.errors) > 20 or len(self.unconfirmed) > 60:
                    stop = True
            if time.time() > deadline + 60:
                break
        self.left = sum(len(p) for p in pending.values())
        for i in order:
            self.per[i]["left"] = len(pending[i])
        for c in conns:
            try:
                c.send(None)
            except OSError:
                pass
        for p in procs:
            p.terminate()
        self.validate()
        return self.finish()

    def absorb(self, idx, out, pending):
        if "crash" in out:
            self.errors.append({"what": out["crash"]})
            return
        pending[idx].extend(out["left"])
        for k, v in out["stats"].items():
            self.stats[k] = self.stats.get(k, 0) + v
        for k, v in out["cut_reasons"].items():
            self.cut_reasons[k] = self.cut_reasons.get(k, 0) + v
        self.entered |= out["entered"]
        self.paths += out["paths"]
        self.aborted += out["aborted"]
        self.decisions += out["decisions"]
        self.incomplete += out["incomplete"]
        per = self.per[idx]
        per["paths"] += out["paths"]
        per["aborted"] += out["aborted"]
        per["max_decisions"] = max(per["max_decisions"], out["maxdec"])
        self.reached.setdefault(idx, set()).update(out["reached"])
        for s in out["samples"]:
            self.nsamples += 1
            cap = MAX_SAMPLES[self.tier]
            if len(self.samples) < cap:
                self.samples.append((idx, s))
            else:
                j = self.rng.randrange(self.nsamples)
                if j < cap:
                    self.samples[j] = (idx, s)
        for e in out["errors"]:
            self.errors.append(e)
        for v in out["violations"]:
            self.judge(idx, v)

    def judge(self, idx, v):
        """Replay a counterexample on the unmodified code."""
        if v["rec"] is None:
            self.unconfirmed.append((idx, v, {"status": "no model", "what": ""}))
            return
        if len(self.confirmed) >= 1:
            return
        case = self.case(idx, v["rec"])
        cl = getattr(self.mod, "classify", None)
        if cl is not None and cl(case["scenario"], case["values"], v["what"]) in self.known:
            self.known_again += 1
            return
        self.replays += 1
        r = replay_batch([case], 120)[0]
        if r["status"] in ("violation", "exception", "timeout", "crash"):
            self.add_confirmed(case, v["what"], r)
        else:
            self.unconfirmed.append((idx, v, r))

    def add_confirmed(self, case, what, r):
        key = None
        cl = getattr(self.mod, "classify", None)
        if cl is not None:
            key = cl(case["scenario"], case["values"], r["what"])
        if key is not None and key in self.known_keys():
            self.known.setdefault(key, (case, r))
            return
        case = dict(case, what=r["what"], found_as=what)
        self.confirmed.append(case)

    def known_keys(self):
        if not hasattr(self, "_known"):
            p = os.path.join(HERE, "known_findings.json")
            self._known = {}
            if os.path.exists(p):
                with open(p, encoding="utf-8") as f:
                    for e in json.load(f)["known"]:
                        if e["property"] == self.pid:
                            self._known[e["key"]] = e
        return self._known

    def validate(self):
        self.validated = 0
        self.mismatches = []
        if self.confirmed:
            return
        cases = [self.case(i, s) for i, s in self.samples]
        res = replay_batch(cases, 200)
        for (i, s), case, r in zip(self.samples, cases, res):
            if r["status"] in ("violation", "exception"):
                self.add_confirmed(case, "replayed path", r)
            elif r["status"] == "ok" and (s["obs"] is None or r["obs"] == s["obs"]):
                self.validated += 1
            else:
                self.mismatches.append({"case": case, "symbolic": s["obs"], "concrete": r})

    def finish(self):
        pid = self.pid
        ev = os.path.join(HERE, "evidence")
        os.makedirs(ev, exist_ok=True)
        code = 0
        replay = os.path.join(ev, "%s-replay.json" % pid)
        if os.path.exists(replay):
            os.remove(replay)
        if self.confirmed:
            with open(replay, "w", encoding="utf-8") as f:
                json.dump(self.confirmed[0], f, indent=1)
            code = 1
        from vp import instrument
        allow = max(3, (self.paths + self.aborted) // 50)
        reasons = []
        if code == 0:
            if self.errors:
                reasons.append("engine errors: %d, first: %s" % (
                    len(self.errors), self.errors[0]["what"]))
            if len(self.unconfirmed) > allow:
                reasons.append("counterexamples that do not reproduce: %d, first: %s / %s" % (
                    len(self.unconfirmed), self.unconfirmed[0][1]["what"],
                    json.dumps(self.unconfirmed[0][1]["rec"])[:600]))
            if len(self.mismatches) > max(3, len(self.samples) // 50):
                reasons.append("paths whose replay differs: %d, first: %s" % (
                    len(self.mismatches), json.dumps(self.mismatches[0])[:1500]))
            for i, sc in enumerate(self.mod.SCENARIOS):
                if i not in self.per:
                    continue
                if self.per[i]["paths"] == 0:
                    reasons.append("scenario %s explored no feasible path" % sc["name"])
                if self.per[i]["left"] == 0:
                    miss = set(sc.get("reach", ())) - self.reached.get(i, set())
                    if miss:
                        reasons.append("scenario %s never reached %s" % (
                            sc["name"], sorted(miss)))
            if reasons:
                code = 2
        names = [sc["name"] for sc in self.mod.SCENARIOS]
        cov = {
            "states": self.paths,
            "transitions": self.decisions,
            "traces_validated_against_impl": self.validated + self.replays,
            "samples": [dict(scenario=names[i], values=s["values"], observed=s["obs"])
                        for i, s in self.samples[:4]],
            "exhaustive": self.left == 0 and self.incomplete == 0 and not self.unconfirmed
            and not self.confirmed,
            "paths_infeasible_or_cut": self.aborted,
            "paths_with_cuts": self.incomplete,
            "cut_reasons": self.cut_reasons,
            "unexplored_prefixes": self.left,
            "undecided_paths": len(self.unconfirmed),
            "undecided_first": self.unconfirmed[0][1]["what"] if self.unconfirmed else None,
            "replay_mismatches": len(self.mismatches),
            "solver_queries": self.stats.get("queries", 0),
            "queries_answered_from_earlier_results": self.stats.get("cached", 0),
            "solver_unknown": self.stats.get("unknown", 0),
            "solver_seconds": round(self.stats.get("solver_s", 0.0), 3),
            "obligations_checked": self.stats.get("obligations", 0),
            "symbolic_branches": self.stats.get("branches", 0),
            "structure_choices": self.stats.get("picks", 0),
            "concretisations": self.stats.get("concretised", 0),
            "functions_encoded": len(set(instrument.FUNCTIONS)),
            "functions_executed": sorted(self.entered),
            "scenarios": {names[i]: dict(p, params=self.mod.SCENARIOS[i].get(self.tier)
                                         or self.mod.SCENARIOS[i]["quick"])
                          for i, p in self.per.items()},
            "bounds": getattr(self.mod, "BOUNDS", ""),
            "known_findings_seen": sorted(self.known),
            "known_finding_paths": self.known_again + len(self.known),
        }
        evidence = {
            "property": pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": cov,
            "assumptions": COMMON_ASSUMPTIONS + list(getattr(self.mod, "ASSUMPTIONS", [])),
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.confirmed),
        }
        path = os.path.join(ev, "%s.json" % pid)
        with open(path, "w", encoding="utf-8") as f:
            json.dump(evidence, f, indent=1)
        for key in sorted(self.known):
            print("KNOWN-FINDING: property=%s %s" % (pid, self.known_keys()[key]["what"]))
        print("%s %s: %d paths, %d cut/infeasible, %d queries, %.1fs solver, %d left, "
              "%d replays ok, %d mismatches, %d undecided, %.1fs" % (
                  pid, self.tier, self.paths, self.aborted, cov["solver_queries"],
                  cov["solver_seconds"], self.left, self.validated, len(self.mismatches),
                  len(self.unconfirmed), evidence["wall_s"]))
        if code == 1:
            print("counterexample: %s [%s]" % (
                self.confirmed[0]["what"], self.confirmed[0]["scenario"]))
            print("VIOLATION property=%s replay=%s" % (pid, replay))
        for r in reasons:
            print("ERROR: " + r)
        sys.stdout.flush()
        return code


COMMON_ASSUMPTIONS = [
    "JSON libraries are modelled by their contract (text injective in the tree, last duplicate "
    "key wins, documented key coercion); trees without symbolic parts use the real libraries",
    "base64/base85/zlib codecs are inverse pairs; unmodelled C functions get concrete values "
    "(recorded as concretisations/cuts)",
    "symbolic floats range over multiples of 0.5; symbolic text excludes nothing else",
    "single thread; garbage collection off during a path",
]


if __name__ == "__main__":
    sys.exit(Check(sys.argv[1]).run())
