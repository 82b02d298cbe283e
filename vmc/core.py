"""Recorder, check base class and the sharded, watched driver."""
import collections
import hashlib
import json
import os
import pickle
import re
import signal
import sys
import time
import traceback
import mmap
import struct

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Fail(Exception):
    """A property violation.  finding: id of a known-finding class this failure belongs to, if any"""
    def __init__(self, msg, finding=None):
        super(Fail, self).__init__(msg)
        self.finding = finding


def require(cond, msg, *args, **kw):
    if not cond:
        raise Fail(msg.format(*args) if args else msg, **kw)


def canon(obj):
    return hashlib.blake2b(repr(obj).encode("utf8"), digest_size=8).digest()


def brief(e):
    return "{0}: {1}".format(type(e).__name__, str(e).replace("\n", " ")[:200])


class StopNow(BaseException):
    """under VMC_FAILFAST (mutation campaigns): the first violation ends the run"""


FAILFAST = bool(os.environ.get("VMC_FAILFAST"))
FAIL_GRACE = 45.0   # seconds a shard goes on exploring after its first violation


class Recorder(object):
    MAX_VIOL = 8
    MAX_SAMPLES = 2

    def __init__(self, beat=None):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.nontrivial = 0
        self.outcomes = collections.Counter()
        self.samples = []
        self.violations = []   # (case, msg)
        self.n_violations = 0
        self.known = {}        # finding -> [count, example case, msg]
        self.notes = {}
        self.kinds = collections.Counter()
        self._beat = beat
        self.t_fail = None

    def beat(self):
        if self._beat is not None:
            self._beat()
            if self.t_fail is not None and time.time() - self.t_fail > FAIL_GRACE:
                raise StopNow("enough")

    def state(self, key):
        """register a canonical state; True if new"""
        h = canon(key)
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def step(self, n=1):
        self.transitions += n

    def outcome(self, label):
        self.outcomes[str(label)] += 1

    def sample(self, s):
        if len(self.samples) < self.MAX_SAMPLES:
            self.samples.append(s)

    def fail(self, case, msg, finding=None):
        if finding is not None:
            ent = self.known.setdefault(finding, [0, case, msg])
            ent[0] += 1
        else:
            self.n_violations += 1
            if self.t_fail is None:
                self.t_fail = time.time()
            kind = re.sub(r"[-0-9.]+", "#", msg)[:110]
            self.kinds[kind] += 1
            if self.kinds[kind] <= 2 and len(self.violations) < self.MAX_VIOL:
                self.violations.append((case, msg))
            if FAILFAST and self._beat is not None:
                raise StopNow(kind)

    def merge(self, o):
        self.states |= o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.nontrivial += o.nontrivial
        self.outcomes.update(o.outcomes)
        for s in o.samples:
            if len(self.samples) < 4:
                self.samples.append(s)
        self.violations += o.violations
        self.n_violations += o.n_violations
        if o.n_violations and self.t_fail is None:
            self.t_fail = time.time()
        self.kinds.update(o.kinds)
        for k, v in o.known.items():
            if k in self.known:
                self.known[k][0] += v[0]
            else:
                self.known[k] = v
        for k, v in o.notes.items():
            if isinstance(v, (int, float)) and k in self.notes:
                self.notes[k] += v
            else:
                self.notes.setdefault(k, v)


class Check(object):
    """One property.  Subclasses give shards(tier), cases(shard, tier) and run_case(case, rec).

    run_case raises Fail (or any exception: code that must work but raised) when the property is broken, and returns
    a short label of the observed outcome.  Explicit-state checks override run_shard and call rec.fail themselves with
    a case that run_case can replay.
    """
    pid = None
    bounds = {}
    assumptions = ()
    rule = ""
    case_timeout = 150

    def setup(self):
        """once, in the main process before forking: import the code under test"""

    def shards(self, tier):
        return [None]

    def cases(self, shard, tier):
        raise NotImplementedError

    def run_case(self, case, rec):
        raise NotImplementedError

    def attempt(self, case, rec):
        """run one case, recording a failure; returns True when it passed"""
        rec.beat()
        rec.traces += 1
        try:
            label = self.run_case(case, rec)
        except Fail as e:
            rec.fail(case, str(e), e.finding)
            rec.outcome("FAIL" if e.finding is None else "known:" + e.finding)
            return False
        except Exception as e:  # pylint: disable=broad-except
            tb = traceback.format_exc().strip().splitlines()
            rec.fail(case, "unexpected " + brief(e) + " | " + " | ".join(tb[-4:]))
            rec.outcome("FAIL")
            return False
        rec.outcome(label if label is not None else "ok")
        rec.sample(case)
        return True

    def run_shard(self, shard, tier, rec):
        for case in self.cases(shard, tier):
            self.attempt(case, rec)


def explore_bfs(rec, make, menu, apply_, canon_, max_depth, on_fail, replay_=None):
    """Breadth-first explicit-state search by re-execution.

    make() -> fresh (impl, model); menu(model, depth) -> list of events; apply_(pair, event) runs an event on both and
    checks them (raising Fail); replay_ does so without checking; canon_(pair) -> hashable canonical state whose futures determine everything observed.
    """
    def build(hist):
        pair = make()
        for ev in hist:
            (replay_ or apply_)(pair, ev)
        return pair

    try:
        p0 = make()
    except Fail as e:
        on_fail([], e)
        return 0
    rec.state(canon_(p0))
    frontier = collections.deque([()])
    depth_done = 0
    while frontier:
        hist = frontier.popleft()
        if len(hist) >= max_depth:
            continue
        depth_done = max(depth_done, len(hist) + 1)
        pair = build(hist)
        for ev in menu(pair, len(hist)):
            rec.beat()
            pair = build(hist)
            rec.step()
            rec.traces += 1
            try:
                apply_(pair, ev)
            except Fail as e:
                on_fail(list(hist) + [ev], e)
                continue
            except Exception as e:  # pylint: disable=broad-except
                on_fail(list(hist) + [ev], Fail("unexpected " + brief(e) + " | " +
                                                " | ".join(traceback.format_exc().strip().splitlines()[-4:])))
                continue
            if rec.state(canon_(pair)):
                frontier.append(hist + (ev,))
    rec.notes["max_depth"] = max_depth
    return depth_done


def _run_child(check, shard, tier, outfn, mm):
    def beat():
        n, = struct.unpack_from("Q", mm, 0)
        struct.pack_into("Q", mm, 0, n + 1)
    rec = Recorder(beat)
    status = 0
    try:
        check.run_shard(shard, tier, rec)
    except StopNow:
        pass
    except BaseException as e:  # pylint: disable=broad-except
        rec.notes["harness_error"] = 1
        rec._beat = None
        rec.fail({"shard": shard}, "shard aborted: " + brief(e) + " | " +
                 " | ".join(traceback.format_exc().strip().splitlines()[-6:]))
    rec._beat = None
    with open(outfn + ".tmp", "wb") as f:
        pickle.dump(rec, f)
    os.rename(outfn + ".tmp", outfn)
    return status


def run_sharded(check, tier, workdir, njobs=None, deadline=780.0):
    njobs = njobs or max(1, min(8, len(os.sched_getaffinity(0))))
    shards = list(check.shards(tier))
    total = Recorder()
    pending = collections.deque(enumerate(shards))
    running = {}
    t0 = time.time()
    case_timeout = 15 if FAILFAST else check.case_timeout
    while pending or running:
        if total.n_violations and (FAILFAST or time.time() - total.t_fail > 3 * FAIL_GRACE):
            for p in list(running):
                try:
                    os.killpg(p, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(p, 0)
            break
        while pending and len(running) < njobs:
            i, sh = pending.popleft()
            mm = mmap.mmap(-1, 16)
            outfn = os.path.join(workdir, "shard%d.pkl" % i)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    devnull = os.open(os.devnull, os.O_WRONLY)
                    if not os.environ.get("VMC_VERBOSE"):
                        os.dup2(devnull, 1)
                        os.dup2(devnull, 2)
                    _run_child(check, sh, tier, outfn, mm)
                    os._exit(0)
                finally:
                    os._exit(9)
            running[pid] = [i, sh, mm, outfn, 0, time.time()]
        pid, st = os.waitpid(-1, os.WNOHANG)
        now = time.time()
        if pid and pid in running:
            i, sh, mm, outfn, _, _ = running.pop(pid)
            if os.path.isfile(outfn):
                with open(outfn, "rb") as f:
                    total.merge(pickle.load(f))
                os.unlink(outfn)
            else:
                sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
                total.fail({"shard": sh}, "process died in shard {0!r} (signal {1}, status {2}) after {3} cases"
                           "".format(sh, sig, st, struct.unpack_from("Q", mm, 0)[0]))
            continue
        for p, ent in list(running.items()):
            n, = struct.unpack_from("Q", ent[2], 0)
            if n != ent[4]:
                ent[4], ent[5] = n, now
            elif now - ent[5] > case_timeout:
                total.fail({"shard": ent[1]}, "no termination: case #{0} of shard {1!r} ran over {2} s"
                           "".format(n, ent[1], case_timeout))
                try:
                    os.killpg(p, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(p, 0)
                running.pop(p)
        if now - t0 > deadline and tier == "quick":
            for p in list(running):
                try:
                    os.killpg(p, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(p, 0)
            total.notes["deadline_hit"] = 1
            total.notes["shards_unfinished"] = len(running) + len(pending)
            break
        if not pid:
            time.sleep(0.02)
    return total, len(shards)


def load_known():
    fn = os.path.join(VERIF, "known_findings.json")
    with open(fn) as f:
        ents = json.load(f)["findings"]
    return ents


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)
