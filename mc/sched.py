"""Controlled scheduler: all interleavings of a few threads at file-system granularity, preemption-bounded.

Each participant runs in its own thread and stops before every file-system access below a watched root
(audit events plus os.stat/os.lstat, through which existence checks go).  Exactly one thread runs at a time.
explore() enumerates all schedules with at most `bound` preemptions by stateless replay.
"""
from __future__ import annotations

import os
import threading

from mc import fs

_real_stat, _real_lstat = os.stat, os.lstat
_tls = threading.local()


class Diverged(RuntimeError):
    pass


class Deadlock(RuntimeError):
    pass


class _Exec:
    def __init__(self, root, bodies, skip=frozenset()):
        self.skip = skip      # accesses that commute with every other one (no switch needed there)
        self.root = os.path.normpath(str(root))
        self.bodies = bodies
        self.cv = threading.Condition()
        self.turn = None
        self.at = {}          # tid -> label it is stopped before ("start" at first)
        self.done = {}
        self.result = {}

    def point(self, label):
        tid = getattr(_tls, "tid", None)
        if tid is None or getattr(_tls, "inside", False):
            return
        _tls.inside = True
        try:
            with self.cv:
                self.at[tid] = label
                self.turn = None
                self.cv.notify_all()
                while self.turn != tid:
                    self.cv.wait()
        finally:
            _tls.inside = False

    def on_fs(self, kind, path):
        if getattr(_tls, "tid", None) is not None and (path == self.root or path.startswith(self.root + os.sep)):
            rel = os.path.relpath(path, self.root)
            if not (self.skip(kind, rel) if callable(self.skip) else (kind, rel) in self.skip):
                self.point((kind, rel))

    def _thread(self, tid, body):
        _tls.tid = tid
        _tls.inside = False
        try:
            self.point("start")
            r = ("ok", body())
        except Exception as e:  # noqa: BLE001
            r = ("exc", e)
        finally:
            pass
        _tls.tid = None
        with self.cv:
            self.result[tid] = r
            self.done[tid] = True
            self.turn = None
            self.cv.notify_all()

    def wait_quiet(self, n):
        """All live threads stopped."""
        with self.cv:
            while self.turn is not None or len(self.at) + len([t for t in self.done if t not in self.at]) < n:
                if not self.cv.wait(60):
                    raise Deadlock("a participant does not reach its next step")


def _stat(path, *a, **k):
    st = _current
    if st is not None and getattr(_tls, "tid", None) is not None and not isinstance(path, int):
        p = fs._abspath(path)
        if p:
            st.on_fs("stat", p)
    return _real_stat(path, *a, **k)


_current = None


def run(root, bodies, prefix, skip=frozenset()):
    """Execute once following `prefix` (thread ids), then without preemptions. -> (trace, results)

    trace = [(chosen, enabled, label, running_still_enabled)]
    """
    global _current
    ex = _Exec(root, bodies, skip)
    _current = ex
    os.stat = _stat
    ths = [threading.Thread(target=ex._thread, args=(i, b), daemon=True) for i, b in enumerate(bodies)]
    trace = []
    try:
        with fs.activate(ex.on_fs):
            for t in ths:
                t.start()
            with ex.cv:
                while len(ex.at) < len(bodies):
                    if not ex.cv.wait(60):
                        raise Deadlock("start")
            last = None
            i = 0
            while len(ex.done) < len(bodies):
                enabled = [t for t in range(len(bodies)) if t not in ex.done]
                if last in enabled:
                    enabled.remove(last)
                    enabled.insert(0, last)
                if i < len(prefix):
                    c = prefix[i]
                    if c not in enabled:
                        raise Diverged(f"step {i}: {c} not in {enabled}")
                else:
                    c = enabled[0]
                trace.append((c, tuple(enabled), ex.at.get(c), last in enabled))
                with ex.cv:
                    ex.turn = c
                    ex.cv.notify_all()
                    while ex.turn is not None:
                        if not ex.cv.wait(60):
                            raise Deadlock(f"thread {c} stuck after {ex.at.get(c)}")
                last = c
                i += 1
                if i > 5000:
                    raise Deadlock("livelock: 5000 steps")
    finally:
        os.stat = _real_stat
        _current = None
    for t in ths:
        t.join(10)
    return trace, [ex.result[i] for i in range(len(bodies))]


def explore(make, bound, cap=100000, part=0, parts=1, skip=frozenset()):
    """make() -> (root, bodies, judge). Yields each schedule after judge(results, schedule, trace) ran.

    With parts > 1 the subtrees below the first schedule are dealt out; together the parts cover all of them.
    """
    stack = [()]
    n = 0
    first = True
    while stack:
        prefix = stack.pop()
        if n >= cap:
            yield None
            return
        root, bodies, judge = make()
        trace, results = run(root, bodies, prefix, skip)
        sched = tuple(t[0] for t in trace)
        judge(results, sched, trace)
        n += 1
        yield sched
        cost = 0
        costs = []
        prev = None
        for c, enabled, _l, _s in trace:
            costs.append(cost)
            if prev is not None and prev in enabled and c != prev:
                cost += 1
            prev = c
        for i in range(len(trace) - 1, len(prefix) - 1, -1):
            c, enabled, _l, _s = trace[i]
            prevt = trace[i - 1][0] if i else None
            for alt in enabled:
                if alt == c:
                    continue
                extra = 1 if (prevt is not None and prevt in enabled and alt != prevt) else 0
                if costs[i] + extra <= bound:
                    stack.append(sched[:i] + (alt,))
        if first:
            stack = stack[part::parts]
            first = False
