"""Common machinery of the checks: enumerates a finite list of cases, explores every one of them on the
real code in /repo (8 worker processes), counts what was covered, writes evidence and replay files.

A *case* is a small JSON-able value; check.run(case, cx) explores everything below that case
deterministically and reports through cx. A replay file is just (property, case); mc/replay.py runs it again
without the pool."""
import hashlib
import json
import multiprocessing
import multiprocessing.connection
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HISTBOOK_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import warnings
warnings.simplefilter("ignore")


class Violation(Exception):
    """The code under test broke the property."""


class CaseTimeout(BaseException):
    pass


def h64(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode("utf-8", "surrogatepass"), digest_size=8).digest(), "big")


class Context(object):
    """What one case covered."""

    def __init__(self, tier):
        self.tier = tier
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.failures = []
        self.samples = []
        self.extra = {}

    def state(self, key):
        self.states.add(h64(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, key):
        self.outcomes.add(h64(key))

    def sample(self, what):
        if len(self.samples) < 1:
            self.samples.append(what)

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def fail(self, message, sub=None):
        """Record a violation; sub identifies the failing input/history inside the case."""
        if len(self.failures) < 20:
            self.failures.append({"sub": sub, "message": message})

    def expect(self, ok, message, sub=None):
        if not ok:
            self.fail(message, sub)
        return ok


def brief():
    tb = traceback.format_exc().strip().split("\n")
    return "\n".join(tb[-14:])


def run_case(check, case, tier):
    cx = Context(tier)

    def onalarm(signum, frame):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(getattr(check, "case_timeout", 300)))
    try:
        check.run(case, cx)
    except Violation as err:
        cx.fail(str(err))
    except CaseTimeout:
        cx.fail("did not terminate within %d s\n%s" % (getattr(check, "case_timeout", 300), brief()))
    except KeyboardInterrupt:
        raise
    except Exception:
        cx.fail("unexpected exception from the code under test:\n" + brief())
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return cx


_check = None
_cases = None
_tier = None


def _task(rng):
    lo, hi = rng
    out = []
    states, outcomes = set(), set()
    transitions = traces = 0
    samples, extra = [], {}
    for i in range(lo, hi):
        cx = run_case(_check, _cases[i], _tier)
        states |= cx.states
        outcomes |= cx.outcomes
        transitions += cx.transitions
        traces += cx.traces
        if cx.samples and len(samples) < 1:
            samples.append({"case": _cases[i], "sample": cx.samples[0]})
        for k, v in cx.extra.items():
            extra[k] = extra.get(k, 0) + v
        for f in cx.failures:
            out.append((i, f))
        if cx.failures and not os.environ.get("MC_ALL"):
            break
    return lo, hi, out, states, outcomes, transitions, traces, samples, extra


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["known"]


def signature(case, failure):
    return json.dumps([case, failure["sub"]], sort_keys=True, default=str)


def _work(conn):
    while True:
        r = conn.recv()
        conn.send(_task(r))


class Worker(object):
    """A forked process with a pipe of its own: nothing is shared with other workers, so that killing one never blocks anybody."""

    def __init__(self, others):
        self.conn, theirs = multiprocessing.Pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                self.conn.close()
                for w in others:
                    w.conn.close()
                _work(theirs)
            except BaseException:
                pass
            finally:
                os._exit(1)
        theirs.close()
        self.task, self.tries = None, 0

    def give(self, task, tries):
        self.task, self.tries = task, tries
        try:
            self.conn.send(task)
        except OSError:
            pass            # it has died: recv tells

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(self.pid, 0)
        self.conn.close()


def spread_over(workers, tasks):
    """Results of _task, in the order in which they are ready. A task whose worker died is given to a new one, at most twice."""
    todo = [(t, 0) for t in reversed(tasks)]
    pool = []
    try:
        while todo or any(w.task is not None for w in pool):
            for w in pool:
                if w.task is None and todo:
                    w.give(*todo.pop())
            while todo and len(pool) < workers:
                w = Worker(pool)
                pool.append(w)
                w.give(*todo.pop())
            busy = [w for w in pool if w.task is not None]
            for conn in multiprocessing.connection.wait([w.conn for w in busy]):
                w = [x for x in busy if x.conn is conn][0]
                try:
                    res = conn.recv()
                except (EOFError, OSError):
                    w.kill()
                    pool.remove(w)
                    if w.tries >= 2:
                        raise RuntimeError("the process exploring cases %r died three times" % (w.task,))
                    todo.append((w.task, w.tries + 1))
                    continue
                w.task = None
                yield res
    finally:
        for w in pool:
            w.kill()


def main(check, tier, seed):
    """Runs one check; returns the exit status."""
    global _check, _cases, _tier
    t0 = time.time()
    evidence = os.path.join(VERIF, "evidence", check.id + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence):
        os.remove(evidence)

    cases = list(check.cases(tier))
    _check, _cases, _tier = check, cases, tier
    workers = int(os.environ.get("MC_WORKERS", min(8, os.cpu_count() or 1)))
    size = max(1, min(getattr(check, "chunk", 10 ** 9), len(cases) // (workers * 8)))
    ranges = [(i, min(i + size, len(cases))) for i in range(0, len(cases), size)]

    states, outcomes = set(), set()
    transitions = traces = done = 0
    samples, extra, failures = [], {}, []

    def merge(res):
        nonlocal transitions, traces, done
        lo, hi, out, st, oc, tr, tc, sm, ex = res
        states.update(st)
        outcomes.update(oc)
        transitions += tr
        traces += tc
        done += hi - lo
        if len(samples) < 3:
            samples.extend(sm)
        for k, v in ex.items():
            extra[k] = extra.get(k, 0) + v
        failures.extend(out)

    known = [k for k in load_known() if k["property"] == check.id]
    knownsigs = dict((k["signature"], k) for k in known)

    def fresh():
        return [(i, f) for i, f in failures if signature(cases[i], f) not in knownsigs]

    stopped = False
    if workers <= 1 or getattr(check, "serial", False):
        for r in ranges:
            merge(_task(r))
            if fresh() and not os.environ.get("MC_ALL"):
                stopped = True
                break
    else:
        for res in spread_over(workers, ranges):
            merge(res)
            if fresh() and not os.environ.get("MC_ALL"):
                stopped = True
                break

    status = 0
    seenknown = set()
    for i, f in failures:
        sig = signature(cases[i], f)
        if sig in knownsigs and sig not in seenknown:
            seenknown.add(sig)
            print("KNOWN-FINDING: property=%s %s" % (check.id, knownsigs[sig]["what"]))

    new = fresh()
    if new:
        status = 1
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        new.sort(key=lambda p: (p[0], len(json.dumps(p[1], default=str))))
        for i, f in new[:(3 if not os.environ.get("MC_ALL") else 10000)]:
            if i in seen:
                continue
            seen.add(i)
            path = os.path.join(rdir, "%s-%d.json" % (check.id, i))
            with open(path, "w") as fp:
                json.dump({"property": check.id, "tier": tier, "case": cases[i], "sub": f["sub"], "message": f["message"],
                           "rerun": "bash check.sh replay " + path}, fp, indent=1, default=str)
            print("--- %s case %s sub %s\n%s" % (check.id, json.dumps(cases[i], default=str)[:2000], json.dumps(f["sub"], default=str)[:2000], f["message"][:4000]))
            print("VIOLATION property=%s replay=%s" % (check.id, path))

    coverage = {"states": len(states), "transitions": transitions, "traces_validated_against_impl": traces,
                "distinct_observed_outcomes": len(outcomes), "cases": done, "cases_total": len(cases),
                "exhaustive": (not stopped) and done == len(cases), "bounds": check.bounds(tier),
                "samples": samples[:3]}
    for k in sorted(extra):
        coverage[k] = extra[k]
    wall = time.time() - t0
    doc = {"property": check.id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": coverage,
           "assumptions": list(getattr(check, "assumptions", [])), "wall_s": round(wall, 3), "violations": len(new)}
    with open(evidence, "w") as fp:
        json.dump(doc, fp, indent=1, default=str)
        fp.write("\n")
    print("%s %s: %d cases, states=%d transitions=%d traces=%d outcomes=%d violations=%d known=%d %.1fs" % (
        check.id, tier, done, len(states), transitions, traces, len(outcomes), len(new), len(seenknown), wall))
    sys.stdout.flush()
    return status
