"""Division of work and parallel map"""
import itertools
import multiprocessing as mp
import os
import threading
import time

import numpy as np

from vmc.core import Check, Fail, require


class Boom(Exception):
    pass


class Boom2(Exception):
    pass


class Gates(object):
    """controls when each task of one map finishes; works across fork: task i says 's' on its pipe, waits for a byte, ..."""
    def __init__(self, n):
        self.n = n
        self.up = [os.pipe() for _ in range(n)]
        self.down = [os.pipe() for _ in range(n)]
        for r, _ in self.up:
            os.set_blocking(r, False)

    def close(self):
        for p in self.up + self.down:
            for fd in p:
                os.close(fd)

    # the task's side
    def task(self, i):
        os.write(self.up[i][1], b"s")
        os.read(self.down[i][0], 1)

    # the controller's side
    def started(self, i):
        try:
            return os.read(self.up[i][0], 1) == b"s"
        except BlockingIOError:
            return False

    def release(self, i):
        os.write(self.down[i][1], b"g")


GATES = None


def gated(i, val, raises=None, scale=1, **kw):
    GATES.task(i)
    if raises is not None and i in raises:
        raise (Boom if i % 2 else Boom2)(i)
    return (i, val * scale, sorted(kw.items()))


def plain(i, val, raises=None, scale=1, **kw):
    if raises is not None and i in raises:
        raise (Boom if i % 2 else Boom2)(i)
    return (i, val * scale, sorted(kw.items()))


def whoami(i):
    return os.getpid()


def nested(i, n):
    from viscid import parallel
    return parallel.map(2, plain, [(j, i) for j in range(n)])


class Par(Check):
    pid = "V14"
    rule = ("(a) every division of nel elements into nchunks chunks, or chunks of a size, against a partition: in order, complete, disjoint, "
            "even, and the sizes announced; (b) parallel map of up to four (thorough: five) tasks by 1..4 threads or processes, given pools "
            "or none: depth-first over every order in which the tasks can finish, tasks held at gates and released one at a time")
    bounds = {"nel": "0..24", "nchunks": "1..9", "tasks": "0..4 (thorough 5)", "workers": "1..4"}
    assumptions = ("a task that announced itself is running; the order of finishing is that of the releases, each awaited",)

    def setup(self):
        from viscid import parallel
        self.p = parallel

    def shards(self, tier):
        n = 5 if tier == "thorough" else 4
        out = [("chunks",), ("misc",)]
        for how in ("threads", "procs", "pool", "tpool", "async", "tasync"):
            for ntasks in range(1, n + 1):
                for nw in range(1, 5):
                    if nw > ntasks + 1:
                        continue
                    out.append((how, ntasks, nw))
        return out

    def run_shard(self, shard, tier, rec):
        if shard[0] in ("chunks", "misc"):
            for case in getattr(self, "cases_" + shard[0])():
                self.attempt(case, rec)
            return
        how, ntasks, nw = shard
        for raises in [()] + [(i,) for i in range(ntasks)] + ([(0, ntasks - 1)] if ntasks > 1 else []):
            # depth-first over the orders in which tasks may finish
            todo = [()]
            seen = set()
            while todo:
                prefix = todo.pop()
                case = ["map", how, ntasks, nw, list(raises), list(prefix)]
                self.choices = []
                if not self.attempt(case, rec):
                    return
                for k in range(len(prefix), len(self.choices)):
                    done, opts, took = self.choices[k]
                    rec.state((how, ntasks, nw, raises, done, opts))
                    for o in opts:
                        if o != took:
                            nxt = tuple(done) + (o,)
                            if nxt not in seen:
                                seen.add(nxt)
                                todo.append(nxt)
                rec.transitions += len(self.choices) - len(prefix)

    def run_case(self, case, rec):
        return getattr(self, "run_" + case[0])(case[1:], rec)

    # ---- chunks ----
    def cases_chunks(self):
        for nel in range(25):
            for nch in range(1, 10):
                yield ["chunks", nel, nch, None]
            for size in range(1, 10):
                yield ["chunks", nel, 1, size]
                yield ["chunks", nel, 3, size]

    def run_chunks(self, case, rec):
        nel, nch, size = case
        p = self.p
        seq = [10 + i for i in range(nel)]
        kw = {} if size is None else {"size": size}
        slcs = p.chunk_slices(nel, nch, **kw)
        n = nch if size is None else max(-(-nel // size), 1)
        require(len(slcs) == n, "chunk_slices({0}, {1}, {2}) gives {3} chunks, not {4}", nel, nch, size, len(slcs), n)
        parts = [seq[slice(*s)] for s in slcs]
        require(sum(parts, []) == seq, "chunk_slices({0}, {1}, {2}): {3} is no partition", nel, nch, size, slcs)
        lens = [len(x) for x in parts]
        require(not lens or max(lens) - min(lens) <= 1, "uneven chunks {0}", lens)
        require(lens == sorted(lens, reverse=True), "longer chunks are not first {0}", lens)
        if size is not None:
            require(max(lens) <= size, "chunks {0} are larger than {1}", lens, size)
        for s in (seq, tuple(seq), np.array(seq, dtype=int), range(10, 10 + nel)):
            got = p.chunk_list(s, nch, **kw)
            require([list(x) for x in got] == parts, "chunk_list gives {0}, not {1}", got, parts)
        sizes = p.chunk_sizes(nel, nch, **kw)
        require(list(sizes) == lens, "chunk_sizes gives {0}, not {1}", list(sizes), lens)
        inter = p.chunk_interslices(n)
        require(len(inter) == n, "chunk_interslices gives {0} chunks", len(inter))
        iparts = [seq[slice(*s)] for s in inter]
        require(sorted(sum(iparts, [])) == seq, "chunk_interslices({0}) is no partition of {1}: {2}", n, nel, inter)
        require([len(x) for x in iparts] == lens, "chunk_interslices have sizes {0}, announced {1}", [len(x) for x in iparts], lens)
        # put back as streamlines do
        back = [None] * nel
        for s, x in zip(inter, iparts):
            back[slice(*s)] = x
        require(back == seq, "chunk_interslices do not put back: {0}", back)
        return "chunks:%d" % min(n, 3)

    # ---- map ----
    def call(self, how, nw, args, kw, func):
        """-> (thunk that waits for the results, cleanup)"""
        p = self.p
        if how == "threads":
            return (lambda: p.map(nw, func, args, args_kw=kw, threads=True)), (lambda: None)
        if how == "procs":
            return (lambda: p.map(nw, func, args, args_kw=kw, force_subprocess=True)), (lambda: None)
        if how in ("pool", "tpool"):
            pool = mp.Pool(nw) if how == "pool" else mp.pool.ThreadPool(nw)

            def close():
                # the pool given is still the caller's
                again = pool.map(whoami, range(2))
                require(len(again) == 2, "the pool given does not work any more")
                pool.terminate()
                pool.join()
            return (lambda: p.map(nw, func, args, args_kw=kw, pool=pool)), close
        if how in ("async", "tasync"):
            def go():
                pl, r = p.map_async(nw, func, args, args_kw=kw, threads=how == "tasync")
                try:
                    return r.get(60)
                finally:
                    pl.join()
            return go, (lambda: None)
        raise AssertionError(how)

    def run_map(self, case, rec):
        global GATES
        how, ntasks, nw, raises, prefix = case
        g = GATES = Gates(ntasks)
        res = {}
        args = [(i, "abcdef"[i]) for i in range(ntasks)]
        kw = {"scale": 2, "other": 7}
        if raises:
            kw["raises"] = tuple(raises)
        thunk, close = self.call(how, nw, iter(args), kw, gated)

        def body():
            try:
                res["val"] = thunk()
            except Exception as e:  # pylint: disable=broad-except
                res["exc"] = e
            except BaseException as e:  # pylint: disable=broad-except
                res["exc"] = e
        th = threading.Thread(target=body)
        th.daemon = True
        th.start()
        running, done = [], []
        self.choices = []
        t0 = time.time()
        waited = time.time()
        while len(done) < ntasks:
            for i in range(ntasks):
                if i not in running and i not in done and g.started(i):
                    running.append(i)
                    waited = time.time()
            want = min(nw, ntasks - len(done))
            if len(running) < want and (not running or time.time() - waited < 0.5):
                require(time.time() - t0 < 40, "map of {0} tasks does not go on: finished {1}, running {2}, {3}", ntasks, done, running, res)
                if not th.is_alive() and not running:
                    break
                time.sleep(0.0005)
                continue
            opts = tuple(sorted(running))
            k = len(done)
            if k < len(prefix):
                if prefix[k] not in opts:
                    # not reachable this time (fewer tasks run at once than there are workers)
                    took = opts[0]
                else:
                    took = prefix[k]
            else:
                took = opts[0]
            self.choices.append((tuple(done), opts, took))
            running.remove(took)
            g.release(took)
            done.append(took)
            waited = time.time()
        th.join(40)
        require(not th.is_alive(), "map does not return after all {0} tasks finished (order {1})", ntasks, done)
        close()
        g.close()
        GATES = None
        require(len(self.choices) >= ntasks or raises, "only {0} of {1} tasks were run", len(self.choices), ntasks)
        if raises:
            require("exc" in res, "task(s) {0} raised but map returned {1}", raises, res.get("val"))
            e = res["exc"]
            require(type(e) in (Boom, Boom2) and e.args[0] in raises, "task(s) {0} raised, map raised {1!r}", raises, e)
            return how + ":raises"
        require("exc" not in res, "map raised {0!r}, finishing order {1}", res.get("exc"), done)
        want = [(i, "abcdef"[i] * 2, [("other", 7)]) for i in range(ntasks)]
        require(list(res["val"]) == want, "results {0} for the order of finishing {1}", res["val"], done)
        return how + ":" + ("in order" if done == sorted(done) else "out of order")

    # ---- the rest ----
    def cases_misc(self):
        for how in ("serial", "threads", "procs", "pool", "tpool", "async", "tasync"):
            for n in list(range(0, 7)) + [9, 17, 33]:
                for nw in (1, 2, 3, "all", " AUTO ", "2", 3.0):
                    if how in ("pool", "tpool") and not isinstance(nw, int):
                        continue
                    if how in ("procs", "pool", "async") and n not in (0, 3, 17):
                        continue
                    yield ["many", how, n, nw]
        for nw in (1, 2):
            yield ["whoami", nw]
        yield ["nest"]

    def run_many(self, case, rec):
        how, n, nw = case
        p = self.p
        args = [(i, i) for i in range(n)]
        if how == "serial":
            if nw not in (1,):
                return "skip"
            got = p.map(nw, plain, args, args_kw={"scale": 3})
            none = p.map(nw, plain, args)
        else:
            thunk, close = self.call(how, nw, args, {"scale": 3}, plain)
            got = thunk()
            close()
            thunk, close = self.call(how, nw, args, None, plain)
            none = thunk()
            close()
        require(list(got) == [(i, i * 3, []) for i in range(n)], "{0}({1}): results {2}", how, nw, got)
        require(list(none) == [(i, i, []) for i in range(n)], "{0}({1}): results {2}", how, nw, none)
        return how

    def run_whoami(self, case, rec):
        nw, = case
        me = os.getpid()
        sub = self.p.map(nw, whoami, [(i,) for i in range(4)], force_subprocess=True)
        require(me not in sub, "force_subprocess runs in the same process")
        thr = self.p.map(nw, whoami, [(i,) for i in range(4)], threads=True)
        require(set(thr) == {me}, "threads run in another process")
        return "whoami"

    def run_nest(self, case, rec):
        got = self.p.map(2, nested, [(i, 3) for i in range(3)], threads=True)
        require(got == [[(j, i, []) for j in range(3)] for i in range(3)], "processes from threads: {0}", got)
        return "nest"
