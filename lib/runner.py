"""Runs a check: deterministic cases, forked chunks on both JSON backends, evidence and verdict."""
from __future__ import annotations

import hashlib
import importlib
import json
import os
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"


def base_env(tmp, orjson):
    env = {"HOME": tmp, "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TZ": "UTC", "PYTHONHASHSEED": "0",
           "PATH": "/opt/venv/bin:/usr/bin:/bin", "PYTHONPYCACHEPREFIX": os.path.join(tmp, "pyc"),
           "PYTHONPATH": os.pathsep.join([VERIF] + (["/opt/orjson"] if orjson else [])),
           "PYTHONNOUSERSITE": "1", "TMPDIR": tmp}
    for k in ("VERIF_SEED", "VERIF_TIER", "VERIF_ALL"):
        if k in os.environ:
            env[k] = os.environ[k]
    return env


class Inconclusive(Exception):
    pass


class Skip(Exception):
    """The case fell outside the property's domain."""


class Violation(Exception):
    def __init__(self, what, script=None, **info):
        super().__init__(what)
        self.what, self.script, self.info = what, script, info


class Recorder:
    """What one chunk observed."""

    def __init__(self):
        self.n = 0
        self.events = {}
        self.distinct = set()
        self.samples = []
        self.skips = {}
        self.violations = []
        self.errors = []
        self.case = None

    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + n

    def evaluate(self, key=None, nontrivial=True):
        self.n += 1
        if nontrivial and key is not None:
            self.distinct.add(hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"), digest_size=8).hexdigest())

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(text if len(text) < 2500 else text[:2500] + "...")

    def skip(self, why):
        self.skips[why] = self.skips.get(why, 0) + 1

    def violation(self, what, script=None, **info):
        raise Violation(what, script, **info)

    def dump(self):
        return dict(n=self.n, events=self.events, distinct=sorted(self.distinct), samples=self.samples,
                    skips=self.skips, violations=self.violations, errors=self.errors)


def case_rng(seed, prop, i):
    return random.Random(f"{seed}:{prop}:{i}")


def cfg_all():
    """Development aid: keep going after violations and print them all."""
    return bool(os.environ.get("VERIF_ALL"))


class CaseTimeout(BaseException):
    pass


def run_case(mod, rec, seed, i, tier, backend):
    rec.case = i
    r = case_rng(seed, mod.PROP, i)
    random.seed(seed * 1000003 + i)     # beartype picks the element of a container it looks at with this
    try:
        mod.case(r, rec, i, dict(tier=tier, backend=backend, seed=seed))
        return True
    except Skip as e:
        rec.skip(str(e) or "skip")
    except Violation as e:
        rec.violations.append(dict(case=i, what=e.what, script=e.script, backend=backend, info=e.info))
        return False
    except CaseTimeout:
        rec.errors.append(dict(case=i, error="case timed out"))
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException:
        rec.errors.append(dict(case=i, error=traceback.format_exc(limit=-8)))
    return True


def run_chunk(mod, lo, hi, seed, tier, backend, out, deadline):
    rec = Recorder()
    rec.deadline_hit = False

    def alarm(*_):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, alarm)
    limit = getattr(mod, "CASE_SECONDS", 150)
    done = 0
    for i in range(lo, hi):
        if time.time() > deadline:
            break
        signal.alarm(limit)
        ok = run_case(mod, rec, seed, i, tier, backend)
        signal.alarm(0)
        done += 1
        if not ok and len(rec.violations) >= 2 and not cfg_all():
            break
    d = rec.dump()
    d.update(lo=lo, hi=hi, done=done, backend=backend)
    with open(out + ".tmp", "w") as fp:
        json.dump(d, fp)
    os.rename(out + ".tmp", out)


def worker_main(argv):
    """Zygote: imports the library once and forks a process per chunk."""
    cfg = json.loads(argv[0])
    sys.setrecursionlimit(3000)
    backend = cfg["backend"]
    mod = importlib.import_module(f"checks.{cfg['module']}")
    import serde
    import serde.json as sj
    assert os.path.realpath(serde.__file__).startswith(os.path.realpath(REPO) + "/"), serde.__file__
    have = "orjson" in sys.modules
    assert have == (backend == "orjson"), (backend, have)
    if hasattr(mod, "setup"):
        mod.setup(cfg)
    jobs = cfg["chunks"]
    deadline = cfg["deadline"]
    running = {}
    stop = cfg["stopfile"]
    while jobs or running:
        while jobs and len(running) < cfg["slots"] and time.time() < deadline and not os.path.exists(stop):
            lo, hi = jobs.pop(0)
            out = os.path.join(cfg["dir"], f"{lo:09d}.json")
            pid = os.fork()
            if pid == 0:
                try:
                    run_chunk(mod, lo, hi, cfg["seed"], cfg["tier"], backend, out, deadline)
                except BaseException:
                    traceback.print_exc()
                    sys.stderr.flush()
                    os._exit(3)
                os._exit(0)
            running[pid] = (lo, hi)
        if time.time() >= deadline or os.path.exists(stop):
            jobs = []
        if not running:
            continue
        pid, st = os.wait()
        lo, hi = running.pop(pid, (None, None))
        if lo is None:
            continue
        if st != 0:
            with open(os.path.join(cfg["dir"], f"{lo:09d}.crash"), "w") as fp:
                json.dump(dict(lo=lo, hi=hi, status=st), fp)
        else:
            try:
                with open(os.path.join(cfg["dir"], f"{lo:09d}.json")) as fp:
                    if json.load(fp)["violations"] and not cfg_all():
                        open(stop, "w").close()
            except OSError:
                pass


def load_findings():
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("open:"):
                parts = line.split(None, 3)
                out.append(dict(property=parts[1].split("=")[1], probe=parts[2].split("=")[1], what=parts[3]))
    return out


def run_findings(prop, tmp):
    """Probes of the listed findings: [(what, still_failing)]."""
    mine = [f for f in load_findings() if f["property"] == prop]
    if not mine:
        return []
    res = []
    for f in mine:
        p = subprocess.run([PY, "-c", "import sys; from lib import findings; sys.exit(findings.run(sys.argv[1]))",
                            f["probe"]], env=base_env(tmp, False), cwd=tmp, capture_output=True, text=True, timeout=120)
        res.append((f, p.returncode))
    return res


def main(prop_module, argv):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
        os.environ["VERIF_TIER"] = tier
    if "--seed" in argv:
        seed = int(argv[argv.index("--seed") + 1])
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        return _main(prop_module, argv, t0, seed, tier, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def static_attr(module):
    """Read PROP, BUDGET and so on without importing the library into this process."""
    ns = {}
    p = os.path.join(VERIF, "checks", module + ".py")
    import ast
    tree = ast.parse(open(p).read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            try:
                ns[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return ns


def _main(module, argv, t0, seed, tier, tmp):
    meta = static_attr(module)
    prop = meta["PROP"]
    if "--replay" in argv:
        return replay(module, meta, argv[argv.index("--replay") + 1], tmp)
    cases = meta["BUDGET"][tier]
    if "--cases" in argv:
        cases = int(argv[argv.index("--cases") + 1])
    chunk = meta.get("CHUNK", 100)
    slots = meta.get("SLOTS", 4)
    cap = meta.get("CAP", {"quick": 600, "thorough": 780})[tier]
    deadline = t0 + cap
    backends = meta.get("BACKENDS", ["std", "orjson"])
    chunks = [(lo, min(lo + chunk, cases)) for lo in range(0, cases, chunk)]
    procs = []
    stopfile = os.path.join(tmp, "stop")
    for bi, b in enumerate(backends):
        mine = [c for j, c in enumerate(chunks) if j % len(backends) == bi]
        cfg = dict(module=module, backend=b, chunks=mine, seed=seed, tier=tier, deadline=deadline,
                   slots=slots if len(backends) > 1 else slots * 2, dir=tmp, stopfile=stopfile)
        procs.append(subprocess.Popen([PY, "-c", "import sys; from lib.runner import worker_main; worker_main(sys.argv[1:])",
                                       json.dumps(cfg)], env=base_env(tmp, b == "orjson"), cwd=tmp,
                                      start_new_session=True, stderr=open(os.path.join(tmp, f"err{bi}"), "w")))
    hard = deadline + 60
    crashed = []
    for bi, p in enumerate(procs):
        try:
            rc = p.wait(timeout=max(1, hard - time.time()))
            if rc != 0:
                crashed.append(open(os.path.join(tmp, f"err{bi}")).read()[-1500:])
        except subprocess.TimeoutExpired:
            crashed.append("worker did not finish in time")
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    tot = Recorder()
    done = 0
    viols = []
    samples = []
    for fn in sorted(os.listdir(tmp)):
        if fn.endswith(".crash"):
            crashed.append(f"chunk crashed: {open(os.path.join(tmp, fn)).read()}")
        if not (fn.endswith(".json") and fn[:9].isdigit()):
            continue
        d = json.load(open(os.path.join(tmp, fn)))
        tot.n += d["n"]
        done += d["done"]
        for k, v in d["events"].items():
            tot.event(k, v)
        for k, v in d["skips"].items():
            tot.skips[k] = tot.skips.get(k, 0) + v
        tot.distinct |= set(d["distinct"])
        samples.extend(d["samples"])
        for v in d["violations"]:
            v["lo"] = d["lo"]
            viols.append(v)
        tot.errors.extend(d["errors"])
    viols.sort(key=lambda v: v["case"])
    findings = run_findings(prop, tmp)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=tot.n, distinct_nontrivial=len(tot.distinct), rule=meta["RULE"],
                            samples=samples[:5] or ["(none)"], cases_run=done, cases_planned=cases,
                            events=dict(sorted(tot.events.items())), skipped=dict(sorted(tot.skips.items())),
                            known_findings=[dict(what=f["what"], still_failing=(rc == 1)) for f, rc in findings]),
              wall_s=round(time.time() - t0, 2), violations=len(viols),
              assumptions=meta.get("ASSUMPTIONS", []))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fp:
        json.dump(ev, fp, indent=1)
    for f, rc in findings:
        if rc == 1:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
        elif rc != 0:
            print(f"note: probe {f['probe']} could not be evaluated (rc={rc})")
    if viols:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        for v in (viols if cfg_all() else viols[:5]):
            path = os.path.join(rd, f"{prop}-{v['case']}-s{seed}.json")
            v.update(property=prop, module=module, seed=seed, tier=tier)
            with open(path, "w") as fp:
                json.dump(v, fp, indent=1)
            print(f"--- {prop} case {v['case']} ({v['backend']}): {v['what']}")
            if v.get("script"):
                print(v["script"])
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if crashed:
        print("inconclusive: " + "; ".join(crashed))
        return 2
    if tot.errors:
        print(f"inconclusive: {len(tot.errors)} harness errors; first:\n{tot.errors[0]['error']} (case {tot.errors[0]['case']})")
        return 2
    mins = meta.get("MIN", {"evaluations": 100})
    # On a slow machine the time may run out first: what counts then is the rate of the observations.
    share = min(1.0, done / meta["BUDGET"]["quick"])
    if "--cases" not in argv and share < 0.15:
        print(f"inconclusive: only {done} of {cases} cases ran in {cap} s")
        return 2
    for k, n in mins.items():
        n = int(n * share)
        got = {"evaluations": tot.n, "distinct": len(tot.distinct)}.get(k, tot.events.get(k, 0))
        if "--cases" not in argv and got < n:
            print(f"inconclusive: observed {k}={got}, need {n}")
            return 2
    print(f"{prop}: held on {tot.n} evaluations ({len(tot.distinct)} distinct non-trivial, {done}/{cases} cases) "
          f"in {time.time()-t0:.1f}s; events {json.dumps(dict(sorted(tot.events.items())))}; skipped {json.dumps(tot.skips)}")
    return 0


def replay(module, meta, path, tmp):
    v = json.load(open(path))
    for lo in (v["case"], v["lo"]):
        code = ("import sys,json,importlib; from lib import runner; cfg=json.loads(sys.argv[1]);"
                "mod=importlib.import_module('checks.'+cfg['module']); rec=runner.Recorder();"
                "getattr(mod,'setup',lambda c:None)(cfg);"
                "[runner.run_case(mod,rec,cfg['seed'],i,cfg['tier'],cfg['backend']) for i in range(cfg['lo'],cfg['case']+1)];"
                "print(json.dumps(rec.dump()))")
        cfg = dict(module=module, seed=v["seed"], tier=v["tier"], backend=v["backend"], lo=lo, case=v["case"])
        p = subprocess.run([PY, "-c", code, json.dumps(cfg)], env=base_env(tmp, v["backend"] == "orjson"), cwd=tmp,
                           capture_output=True, text=True)
        if p.returncode:
            print(p.stderr[-3000:])
            return 2
        d = json.loads(p.stdout.splitlines()[-1])
        if d["violations"]:
            w = d["violations"][-1]
            print(w["what"])
            print(w.get("script") or "")
            print(f"VIOLATION property={meta['PROP']} replay={path}")
            return 1
        if d["errors"]:
            print(d["errors"][0]["error"])
    print("did not reproduce")
    return 0
