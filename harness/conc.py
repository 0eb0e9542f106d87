"""Deterministic schedules of two threads: the operations run for real, the switch points are chosen.

A thread is stopped at chosen line events of snuba_sdk (sys.settrace).  Schedule (k, m): thread 1 runs to its k-th
line, then thread 2 runs to its m-th line (m = 0: to its end), then thread 1 runs to its end, then thread 2.  A thread
that cannot go on, because the other one holds a lock, gives way after a while; the schedule is then another one.
"""
from __future__ import annotations

import os
import sys
import threading
from typing import Any, Callable

import codec

PKG = os.path.realpath(os.path.join(codec.REPO, "snuba_sdk")) + os.sep
WAIT = 0.15


class Runner:
    def __init__(self, f: Callable[[], Any], stops: set[int], opcodes: bool = False, traced: bool = True) -> None:
        self.f = f
        self.traced = traced
        self.stops = stops
        self.opcodes = opcodes
        self.count = 0
        self.lines: list[tuple[str, int]] = []
        self.go = threading.Semaphore(0)
        self.stopped = threading.Semaphore(0)   # released at each stop and at the end
        self.done = False
        self.out: tuple[bool, Any, list[str]] | None = None
        self.thread = threading.Thread(target=self.run, daemon=True)

    def trace(self, frame: Any, what: str, arg: Any) -> Any:
        name = frame.f_code.co_filename
        if not name.startswith(PKG):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame: Any, what: str, arg: Any) -> Any:
        if what == ("opcode" if self.opcodes else "line"):
            self.count += 1
            self.lines.append((frame.f_code.co_filename, frame.f_lasti if self.opcodes else frame.f_lineno))
            if self.count in self.stops:
                self.stopped.release()
                self.go.acquire()
        return self.local

    def run(self) -> None:
        self.go.acquire()
        if self.traced:
            sys.settrace(self.trace)
        try:
            try:
                v = self.f()
                self.out = (True, v, [])
            except BaseException as e:  # noqa: B902
                self.out = (False, None, codec.mro(e))
        finally:
            sys.settrace(None)
            self.done = True
            self.stopped.release()

    def resume(self, wait: float) -> bool:
        """Let it run to its next stop; False if it does not get there."""
        self.go.release()
        return self.stopped.acquire(timeout=wait)


def profile(f: Callable[[], Any], opcodes: bool = False) -> list[tuple[str, int]]:
    r = Runner(f, set(), opcodes)
    r.thread.start()
    if not r.resume(30):
        raise RuntimeError("profiling run does not end")
    r.thread.join(5)
    return r.lines


def schedule(f1: Callable[[], Any], f2: Callable[[], Any], k: int, m: int, opcodes: bool = False) -> list[Any]:
    a = Runner(f1, {k}, opcodes)
    b = Runner(f2, {m} if m else set(), opcodes, bool(m))
    a.thread.start()
    b.thread.start()
    pend_a = not a.resume(10)
    pend_b = not b.resume(WAIT)
    # both are now stopped, done or blocked; finish a, then b
    for r, pend in ((a, pend_a), (b, pend_b)):
        if not r.done and not pend:
            r.resume(WAIT)
    for r in (a, b, a, b):
        if not r.done:
            r.go.release()
            r.thread.join(WAIT)
    for r in (a, b):
        r.thread.join(10)
    return [r.out if r.done else (False, None, ["CallTimeout"]) for r in (a, b)]


def points(lines: list[tuple[str, int]], rnd: Any, extra: int) -> list[int]:
    """Switch points: the first and the last time each line is reached, and some more."""
    first: dict[tuple[str, int], int] = {}
    last: dict[tuple[str, int], int] = {}
    for i, x in enumerate(lines, 1):
        first.setdefault(x, i)
        last[x] = i
    ks = set(first.values()) | set(last.values())
    rest = [i for i in range(1, len(lines) + 1) if i not in ks]
    rnd.shuffle(rest)
    return sorted(ks | set(rest[:extra]))


# ------------------------------------------------------------------ exploring a pair of operations
def _capture(op: str, nodes: list, args: list) -> Callable[[], Any]:
    def f() -> Any:
        return codec.project(codec.perform(op, nodes, args))
    return f


def _in_child(f: Callable[[], Any]) -> Any:
    """f() in a process of its own, so that it starts from the state right after import."""
    import pickle
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            with os.fdopen(wr, "wb") as w:
                pickle.dump(f(), w)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, "rb") as r:
        data = r.read()
    _, status = os.waitpid(pid, 0)
    if status != 0:
        raise RuntimeError("the child failed")
    return pickle.loads(data)


def explore(calls: list[tuple[str, list]], heap: list, rnd: Any, limit: int, fresh: bool, opcodes: bool = False,
            single: float = 0.5) -> tuple[list[dict], int]:
    """Run the two calls (arguments may refer to the objects in heap) under up to `limit` schedules; the events, one per outcome."""
    s = codec.Session()
    for n in heap:
        if not s.input(n):
            return s.events, 0
    fs = []
    for op, nodes in calls:
        try:
            args = [codec.build(x, s.env) for x in (nodes[0]["c"] if op == "new" else nodes)]
        except codec.BuildFailed as b:
            s.events.append(codec.event("new", [b.node], False, codec.NONE, codec.mro(b.exc)))
            return s.events, 0
        fs.append(_capture(op, nodes, args))

    def run(g: Callable[[], Any]) -> Any:
        return _in_child(g) if fresh else g()
    lines = [run(lambda f=f: profile(f, opcodes)) for f in fs]
    ks = points(lines[0], rnd, 10)
    ms = points(lines[1], rnd, 10)
    plans = [(k, 0) for k in ks]
    rnd.shuffle(plans)
    plans = plans[:int(limit * single)]
    extra = min(limit - len(plans), max(10, int(len(plans) * (1 - single) / single)))
    while extra > 0 and ks and ms:
        extra -= 1
        plans.append((rnd.choice(ks), rnd.choice(ms)))
    seen: dict[str, tuple] = {}
    for k, m in plans:
        def one(k: int = k, m: int = m) -> Any:
            outs = schedule(fs[0], fs[1], k, m, opcodes)
            return outs, s.changes()
        outs, chg = run(one)
        for i, o in enumerate(outs):
            key = repr((i, o, chg))
            if key not in seen:
                seen[key] = (i, o, chg, (k, m))
    for i, (ok, r, e), chg, plan in seen.values():
        ev = codec.event(calls[i][0], calls[i][1], ok, r if ok else codec.NONE, e, "full", False, chg)
        ev["sched"] = list(plan)
        s.events.append(ev)
    return s.events, len(plans)
