"""P17: operations run by several threads at once, with forced switches inside the library, give their sequential results."""
import hashlib
import os
import random
import sys
import threading
import time

import serde

from checks.p16_history import WARM, build, declare, outcome
from lib import child

PROP = "P17"
BUDGET = {"quick": 200, "thorough": 2400}
CHUNK = 10
CASE_SECONDS = 150
RULE = "distinct (program, schedule) of several threads in which an operation's result was compared with its sequential result"
MIN = {"evaluations": 19000, "distinct": 7200, "schedules": 440, "overlapping": 370, "forced_switches": 477000,
       "declared_in_threads": 210, "distinct_interleavings": 440}
LIB = os.path.dirname(os.path.realpath(serde.__file__))


def setup(cfg):
    ns = declare(WARM)
    outcome("[to_dict(Warm_zz9('x')), from_dict(Warm_zz9, {'aa_q': 'x'})]", ns)


def sequential(p, order):
    ns = declare(p["source"])
    return {i: outcome(p["ops"][i], ns) for i in order}


class Sched:
    """Forces a thread switch at randomly chosen lines of the library and of the code it generates."""

    def __init__(self, seed, rate):
        self.rate = rate
        self.rnd = random.Random(seed)
        self.log = []
        self.inside = {}
        self.overlap = 0
        self.switches = 0

    def trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not (fn.startswith(LIB) or fn == "<string>"):
            return None
        return self.line

    def line(self, frame, event, arg):
        if self.rnd.random() < (self.rate if self.switches < 2500 else 0.0005):
            me = threading.get_ident()
            self.inside[me] = True
            self.switches += 1
            if len(self.log) < 4000:
                self.log.append((me, frame.f_code.co_name, frame.f_lineno))
            if sum(self.inside.values()) > 1:
                self.overlap += 1
            time.sleep(0 if self.rnd.random() < 0.8 else 0.0005)
            self.inside[me] = False
        return self.line


def concurrent(progs, plan, seed, rate, interval):
    """plan: per thread a list of (program, declare_it, op indices)."""
    shared = {}
    for n, p in enumerate(progs):
        if not p["in_threads"]:
            shared[n] = declare(p["source"])
    sched = Sched(seed, rate)
    barrier = threading.Barrier(len(plan))
    res = [[] for _ in plan]
    errs = []

    def body(k):
        barrier.wait()
        sys.settrace(sched.trace)
        try:
            for n, ops in plan[k]:
                p = progs[n]
                ns = shared.get(n)
                if ns is None:
                    try:
                        ns = declare(p["source"])
                    except BaseException as e:
                        res[k].append((n, -1, f"declaring raised {type(e).__name__}: {str(e)[:200]}"))
                        continue
                for i in ops:
                    res[k].append((n, i, outcome(p["ops"][i], ns)))
        except BaseException as e:
            errs.append(repr(e))
        finally:
            sys.settrace(None)

    old = sys.getswitchinterval()
    sys.setswitchinterval(interval)
    try:
        ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(plan))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(40)
        stuck = sum(t.is_alive() for t in ts)
    finally:
        sys.setswitchinterval(old)
    ids = {}
    sig = hashlib.blake2b(repr([(ids.setdefault(a, len(ids)), b, c) for a, b, c in sched.log]).encode(), digest_size=8).hexdigest()
    # afterwards, alone: the classes are still whole
    after = []
    for n, ns in shared.items():
        for i in range(len(progs[n]["ops"])):
            after.append((n, i, outcome(progs[n]["ops"][i], ns)))
    return dict(res=res, errs=errs, stuck=stuck, switches=sched.switches, overlap=sched.overlap, sig=sig, after=after,
                threads=len({a for a, _, _ in sched.log}))


def case(r, rec, i, cfg):
    progs = [child.run(build, r.random(), 8) for _ in range(r.choice([1, 1, 2]))]
    progs = [p for p in progs if p["ops"]]
    if not progs:
        rec.skip("no operation")
        return
    want = [child.run(sequential, p, list(range(len(p["ops"])))) for p in progs]
    if i < 2:
        rec.sample(progs[0]["source"] + "\n".join(progs[0]["ops"]))
    sigs = set()
    for s in range(4):
        for p in progs:
            p["in_threads"] = r.random() < 0.4
        nthreads = r.choice([2, 3, 4, 6])
        plan = []
        same = r.random() < 0.5
        orders = [r.sample(range(len(p["ops"])), len(p["ops"])) for p in progs]
        for k in range(nthreads):
            mine = []
            for n, p in enumerate(progs):
                ops = list(orders[n])
                if not same:
                    r.shuffle(ops)
                mine.append((n, ops))
            if not same:
                r.shuffle(mine)
            plan.append(mine)
        rate = r.choice([0.001, 0.003, 0.01, 0.05, 0.2])
        args = (progs, plan, r.random(), rate, r.choice([1e-6, 1e-5, 1e-4]))
        try:
            out = child.run(concurrent, *args, timeout=60)
        except child.ChildError as e:
            if "timeout" in str(e):
                rec.violation("the threads did not finish", script(args, None))
            raise RuntimeError(str(e))
        rec.event("schedules")
        rec.event("forced_switches", out["switches"])
        if any(p["in_threads"] for p in progs):
            rec.event("declared_in_threads")
        if out["overlap"]:
            rec.event("overlapping")
        if out["sig"] not in sigs:
            rec.event("distinct_interleavings")
        sigs.add(out["sig"])
        if out["stuck"]:
            rec.violation(f"{out['stuck']} threads did not finish (deadlock)", script(args, None))
        if out["errs"]:
            raise RuntimeError(out["errs"][0])
        for k, rs in enumerate(out["res"]):
            for n, q, got in rs:
                rec.evaluate((progs[n]["source"], out["sig"], q))
                if q == -1:
                    rec.violation(f"in thread {k} of {nthreads}: {got}", script(args, None))
                if got != want[n][q]:
                    rec.violation(f"in thread {k} of {nthreads}: {progs[n]['ops'][q][:300]} gives {got[:300]}, alone {want[n][q][:300]}",
                                  script(args, (n, q)))
        for n, q, got in out["after"]:
            rec.evaluate((progs[n]["source"], out["sig"], "after", q))
            if got != want[n][q]:
                rec.violation(f"after the threads ended: {progs[n]['ops'][q][:300]} gives {got[:300]}, alone {want[n][q][:300]}",
                              script(args, (n, q)))


def script(args, at):
    return (f"import sys; sys.path.insert(0, '/verif')\nfrom checks.p17_threads import concurrent, sequential, setup\nfrom lib import child\n"
            f"setup(None)\nargs = {args!r}\nat = {at!r}\n"
            "want = [child.run(sequential, p, list(range(len(p['ops'])))) for p in args[0]]\n"
            "for attempt in range(30):\n"
            "    out = child.run(concurrent, args[0], args[1], attempt, args[3], args[4], timeout=60)\n"
            "    bad = [(k, n, q, got) for k, rs in enumerate(out['res'] + [out['after']]) for n, q, got in rs if q == -1 or got != want[n][q]]\n"
            "    if bad or out['stuck']:\n"
            "        print(attempt, out['stuck'], bad[:3], [want[n].get(q) for _, n, q, _ in bad[:3]])\n"
            "        break\n"
            "else:\n    print('not reproduced in 30 attempts')\n")
