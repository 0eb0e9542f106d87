"""Decides one property: model checking, replay of the model's cases, validation of recorded executions.

usage: main.py Cxx        exit 0: held on everything explored; 1: violated (VIOLATION line); 2: the machinery failed
environment: VERIF_SEED, VERIF_TIER (quick, thorough), VERIF_BUDGET (seconds, thorough)
"""
from __future__ import annotations

import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback
from multiprocessing import get_context
from typing import Any

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tlc  # noqa: E402

VERIF = tlc.VERIF
EVIDENCE = os.path.join(VERIF, "evidence")


# ------------------------------------------------------------------ reporting
def show(n: Any, limit: int = 1500) -> str:
    def go(x: Any) -> str:
        if x is None:
            return "-"
        k, v, c = x["k"], x["v"], x["c"]
        if k == "str":
            return repr(v)
        if k in ("int", "float", "bool", "none"):
            return v or "None"
        if k in ("list", "tuple", "set"):
            b = {"list": "[]", "tuple": "()", "set": "{}"}[k]
            return b[0] + ", ".join(go(y) for y in c) + b[1]
        if k == "dict":
            return "{" + ", ".join(repr(y["v"]) + ": " + go(y["c"][0]) for y in c) + "}"
        return k + (":" + v if v else "") + ("(" + ", ".join(go(y) for y in c) + ")" if c else "")
    s = go(n)
    return s if len(s) <= limit else s[:limit] + " ..."


WHY = {
    "raised": "raised, although the specification says the call succeeds",
    "accepted": "succeeded, although the specification says it must raise",
    "result": "returned something the specification does not permit",
    "class": "raised an exception of the wrong kind",
    "changed": "changed an object that existed before",
    "differs": "gave another outcome than the same call gives alone",
}


class Report:
    def __init__(self, prop: str) -> None:
        self.prop = prop
        self.found: list[dict] = []

    def add(self, session: list[dict], pos: int, why: str, errs: Any, want: Any, source: str, extra: Any = None) -> None:
        ev = session[pos]
        self.found.append({"property": self.prop, "source": source, "why": why, "meaning": WHY.get(why, why),
                           "call": ev["op"] + " " + " ; ".join(show(x) for x in ev["a"]),
                           "outcome": show(ev["r"]) if ev["ok"] else "raised " + "/".join(ev["e"][:1]),
                           "specified": sorted(errs) if errs else (show(want) if want else ""),
                           "position": pos, "session": session[:pos + 1], "extra": extra})

    def finish(self) -> int:
        if not self.found:
            return 0
        self.found.sort(key=lambda d: len(json.dumps(d["session"])))
        path = os.path.join(EVIDENCE, f"violation_{self.prop}.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump({"violations": len(self.found), "first": self.found[0], "more": self.found[1:6]}, f, indent=1, ensure_ascii=False)
        d = self.found[0]
        print(f"{len(self.found)} rejected; the smallest ({d['source']}): {d['meaning']}")
        print("  call     ", d["call"][:1500])
        print("  outcome  ", d["outcome"][:1500])
        print("  specified", str(d["specified"])[:1500])
        print(f"VIOLATION property={self.prop} replay={path}", flush=True)
        return 1


# ----------------------------------------------------------------- generation
def _gen(job: tuple[str, int, int, int]) -> list[list[dict]]:
    prop, seed, lo, hi = job
    import props
    out = []
    for i in range(lo, hi):
        s = props.make_session(prop, seed, i)
        if s:
            out.append(s)
    return out


def _conc(job: tuple[int, int, int, int, bool]) -> list[tuple[list[dict], int]]:
    seed, lo, hi, limit, opcodes = job
    import props
    return [props.conc_session(seed, i, limit, opcodes) for i in range(lo, hi)]


def _pair(job: tuple[list, list]) -> list[list[dict]]:
    """x, then y, for every y, each pair in a process of its own; the outcomes of y that differ from its first one."""
    import codec
    import conc
    x, ys = job

    def both(y: list) -> list[dict]:
        return [codec.run_call(*x), codec.run_call(*y)]
    return [conc._in_child(lambda y=y: both(y)) for y in ys]


def _twins(job: tuple[list, list, int, int, bool]) -> list[tuple[list[dict], int]]:
    """x and y in two threads."""
    import conc
    x, ys, seed, limit, opcodes = job
    return [conc.explore([(x[0], x[1]), (y[0], y[1])], [], random.Random(f"{seed}/{y}"), limit, False, opcodes, 0.8) for y in ys]


BATCH = 15
NPOOL = 9       # families of McPool; the ones after them are lookalikes


def _replay(job: list[list]) -> list[list[dict]]:
    """Replay calls of a model, several in one session."""
    import codec
    out = []
    for i in range(0, len(job), BATCH):
        if job[i][0] == "legacy":       # on a body that stays, and twice
            s = codec.Session()
            for op, a, asp in job[i:i + BATCH]:
                h = s.input(a[0])
                for _ in range(2 if h else 0):
                    s.call(op, [codec.Ref(h), *a[1:]], asp=asp)
            out.append(s.events)
        else:
            out.append([codec.run_call(op, a, asp) for op, a, asp in job[i:i + BATCH]])
    return out


def _history(job: list[dict]) -> list[list[dict]]:
    """Replay histories of the store model."""
    import codec
    out = []
    for h in job:
        s = codec.Session()
        at = {}         # object of the model -> object of the session
        n = 0

        def move(x: dict) -> dict:
            if x["k"] == "ref":
                return codec.Ref(at[int(x["v"])])
            return {"k": x["k"], "v": x["v"], "c": [move(y) for y in x["c"]]}
        try:
            for x in h["ins"]:
                n += 1
                i = s.call("new", [move(x)], keep=True) if x["k"] in codec.CLASSES else s.input(move(x))
                if not i:
                    raise KeyError
                at[n] = i
            for op, a in h["ev"]:
                a = [move(x) for x in a]
                if op == "mutate":
                    new = codec.build(a[1], s.env)

                    def put(env: list, i: int = int(a[0]["v"]), new: Any = new) -> None:
                        if type(env[i - 1]) in codec.KIND_OF:       # flags, requests
                            for f in codec.KIND_OF[type(new)][1]:
                                setattr(env[i - 1], f, getattr(new, f))
                            return
                        env[i - 1].clear()
                        env[i - 1].extend(new) if isinstance(new, list) else env[i - 1].update(new)
                    s.mutate(put)
                    continue
                keep = op in ("set", "legacy")
                i = s.call(op, a, keep=keep)
                if keep and i:
                    n += 1
                    at[n] = i
        except KeyError:    # an object of the model does not exist: the event that failed says why
            pass
        out.append(s.events)
    return out


def parallel(f: Any, jobs: list, limit: float) -> list:
    """Run the jobs in worker processes; a job that does not end in time is an error of the machinery."""
    ctx = get_context("fork")
    with ctx.Pool(min(8, os.cpu_count() or 1), maxtasksperchild=1) as pool:
        rs = [pool.apply_async(f, (j,)) for j in jobs]
        end = time.time() + limit
        out = []
        for r in rs:
            out += r.get(timeout=max(1.0, end - time.time()))
        return out


# ------------------------------------------------------------------- settings
# sessions per quick run
SESSIONS = {"C01": 500, "C02": 450, "C03": 450, "C04": 220, "C05": 400, "C06": 500, "C07": 500, "C08": 500, "C09": 500, "C10": 260,
            "C11": 420, "C12": 500, "C13": 600, "C14": 500, "C15": 500, "C16": 300, "C17": 500, "C18": 500, "C19": 350}


def _marathon(job: tuple[list, list, int, float]) -> list[list[dict]]:
    """x again and again, then every y; the outcomes."""
    import codec
    x, ys, times, secs = job
    seen: dict[str, dict] = {}
    end = time.time() + secs
    for _ in range(times):
        e = codec.run_call(*x)
        seen.setdefault(json.dumps(e, sort_keys=True), e)
        if time.time() > end:
            break
    return [list(seen.values())] + [[codec.run_call(*x), codec.run_call(*y)] for y in ys]


def _medley(job: tuple[int, int, int]) -> list[tuple[list[list[dict]], int]]:
    """Many different calls, then the same calls in another order, then in several threads at once; the events of the calls that had several outcomes."""
    import threading
    import codec
    import props
    seed, lo, hi = job
    calls: dict[str, tuple[str, list, str]] = {}
    for prop in SESSIONS:
        for i in range(lo, hi):
            for e in props.make_session(prop, seed + 77, i) or []:
                key = json.dumps([e["op"], e["a"], e["asp"]], sort_keys=True)
                if e["op"] not in ("input", "mutate") and '"k": "ref"' not in key and len(key) < 20000:
                    calls[key] = (e["op"], e["a"], e["asp"])
    keys = list(calls)
    rnd = random.Random(f"medley/{seed}/{lo}")
    outs: dict[str, dict[str, dict]] = {k: {} for k in keys}

    def note(k: str, e: dict) -> None:
        outs[k].setdefault(json.dumps(e, sort_keys=True), e)
    for _ in range(2):
        for k in keys:
            note(k, codec.run_call(*calls[k]))
        rnd.shuffle(keys)
    n = 3 * len(keys)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)

    def work(mine: list[str]) -> None:
        for k in mine:
            op, nodes, asp = calls[k]
            try:
                args = [codec.build(x) for x in (nodes[0]["c"] if op == "new" else nodes)]
            except codec.BuildFailed as f:
                note(k, codec.event("new", [f.node], False, codec.NONE, codec.mro(f.exc)))
                continue
            try:
                v = codec.perform(op, nodes, args)
                r = codec.NONE if asp == "accept" else codec.project(v)
                note(k, codec.event(op, nodes, True, r, [], asp))
            except BaseException as e:  # noqa: B902
                note(k, codec.event(op, nodes, False, codec.NONE, codec.mro(e), asp))
    ts = [threading.Thread(target=work, args=(keys[i::4] if i < 4 else rnd.sample(keys, len(keys) // 4),), daemon=True) for i in range(6)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(120)
    sys.setswitchinterval(old)
    return [([[*o.values()] for o in outs.values() if len(o) > 1], n)]


# exhaustive models per property
MODELS = {"C01": ["McCols", "McQuery"], "C02": ["McLit"], "C03": ["McOr"], "C05": ["McQuery"], "C06": ["McCols"], "C07": ["McRequired"], "C08": ["McNew"],
          "C09": ["McCols"], "C10": ["McMql"], "C11": ["McMql"], "C12": ["McMql"], "C13": ["McMetrics"], "C14": ["McRequest"], "C15": ["McLegacy"], "C17": ["McRequest"], "C18": ["McQuery"], "C19": ["McCols"]}


HEAP = ("C04", "C05", "C12", "C13", "C14", "C15", "C16", "C17")
HISTORIES = 5000


def known(prop: str) -> list[tuple[str, dict, str]]:
    out = []
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt"), encoding="utf-8") as f:
        for line in f:
            if line.startswith(f"known: property={prop} "):
                head, what = line.rstrip("\n").split(" :: ", 1)
                op = head.split(" op=", 1)[1].split(" ", 1)[0]
                out.append((op, json.loads(head.split(" input=", 1)[1]), what))
    return out


class Run:
    def __init__(self, prop: str, tier: str, seed: int) -> None:
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rep = Report(prop)
        self.states = self.transitions = self.traces = self.events = self.vacuous = 0
        self.returned = self.nsched = 0
        self.samples: list[Any] = []
        self.models: list[dict] = []
        self.parts: dict[str, int] = {}
        self.dir = tempfile.mkdtemp(prefix="verif_")

    def validate(self, sessions: list[list[dict]], source: str) -> None:
        if not sessions:
            return
        r = tlc.validate(sessions, self.dir)
        self.states += r["states"]
        self.transitions += r["transitions"]
        self.traces += len(sessions)
        n = sum(len(s) for s in sessions)
        self.events += n
        self.returned += sum(e["ok"] for s in sessions for e in s)
        self.vacuous += r["vacuous"]
        self.parts[source] = self.parts.get(source, 0) + n
        for s in sessions[:: max(1, len(sessions) // 2)][:2]:
            e = s[len(s) // 2]
            self.samples.append({"source": source, "call": e["op"] + " " + " ; ".join(show(x, 400) for x in e["a"]),
                                 "outcome": show(e["r"], 400) if e["ok"] else "raised " + "/".join(e["e"][:1])})
        for d in r["rejects"]:
            self.rep.add(sessions[d["s"] - 1], d["p"] - 1, d["why"], d["errs"], d["want"], source)
        os.remove(r["trace"])

    def model(self, module: str, deep: bool = False, timeout: float = 600) -> None:
        """Model-check a universe of calls, and replay every one of them into the code."""
        t0 = time.time()
        d = tempfile.mkdtemp(prefix="mc", dir=self.dir)
        r = tlc.check_model(module, self.prop, deep, d, timeout)
        cases = r["cases"]
        random.Random(self.seed).shuffle(cases)
        t1 = time.time()
        step = max(BATCH, min(600, len(cases) // 16 // BATCH * BATCH))
        sessions = parallel(_replay, [cases[i:i + step] for i in range(0, len(cases), step)], timeout)
        before = len(self.rep.found)
        self.validate(sessions, "model " + module)
        self.models.append({"module": module, "deep": deep, "states": r["states"], "calls_replayed": len(cases), "laws": r["laws"],
                            "rejected": len(self.rep.found) - before, "model_s": round(t1 - t0, 1), "replay_s": round(time.time() - t1, 1)})
        shutil.rmtree(d, ignore_errors=True)

    def histories(self, deep: bool = False, timeout: float = 600) -> None:
        """Every history of the store model, replayed into the code."""
        t0 = time.time()
        r = tlc.histories(self.prop, deep, self.dir, timeout)
        hs, total = r["histories"], len(r["histories"])
        t1 = time.time()
        random.Random(self.seed).shuffle(hs)
        # those that cover every history shorter by one step come first
        seen: set[str] = set()
        first, rest = [], []
        for h in hs:
            pre = json.dumps([h["ins"], h["ev"][:-1]])
            (rest if pre in seen else first).append(h)
            seen.add(pre)
        hs = (first + rest)[:HISTORIES if not deep else None]
        before, done = len(self.rep.found), 0
        while done < len(hs) and not (deep and time.time() - t0 > timeout) and len(self.rep.found) == before:
            part = hs[done:done + 3000]
            step = max(10, min(400, len(part) // 32))
            self.validate(parallel(_history, [part[i:i + step] for i in range(0, len(part), step)], 400), "model McHeap")
            done += len(part)
        self.models.append({"module": "McHeap", "deep": deep, "states": r["states"], "histories": total, "histories_replayed": done,
                            "laws": "HPersistent, HFresh held", "rejected": len(self.rep.found) - before,
                            "model_s": round(t1 - t0, 1), "replay_s": round(time.time() - t1, 1)})

    def random(self, n: int, seed: int, first: int = 0) -> None:
        step = 10
        jobs = [(self.prop, seed, i, min(i + step, first + n)) for i in range(first, first + n, step)]
        self.validate(parallel(_gen, jobs, 400), "generated")

    def schedules(self, pairs: int, limit: int, seed: int, first: int = 0, opcodes: bool = False) -> None:
        """Pairs of operations in two threads, under many schedules."""
        rs = parallel(_conc, [(seed, i, i + 1, limit, opcodes) for i in range(first, first + pairs)], 400)
        self.nsched += sum(n for _, n in rs)
        for s, _ in rs:
            for e in s:
                e.pop("sched", None)
        self.validate([s for s, _ in rs if s], "schedules")

    def pool(self, limit: int, opcodes: bool = False) -> None:
        """The pool of calls: every ordered pair, one after the other; every ordered pair of a family, in two threads."""
        t0 = time.time()
        d = tempfile.mkdtemp(prefix="mc", dir=self.dir)
        r = tlc.check_model("McPool", self.prop, False, d, 600)
        shutil.rmtree(d, ignore_errors=True)
        every, all_groups = r["cases"], [int(h.removeprefix("cases")) for h in r["group"]]
        cases, group = [c for c, h in zip(every, all_groups) if h <= NPOOL], [h for h in all_groups if h <= NPOOL]
        look = [(x, [y for y, h in zip(every, all_groups) if h == g]) for x, g in zip(every, all_groups) if g > NPOOL]
        before = len(self.rep.found)
        t1 = time.time()
        # a pair says something new if its second event is new
        seen: set[str] = set()

        def fresh(sessions: list[list[dict]], all_of: bool) -> list[list[dict]]:
            out = []
            for s in sessions:
                ks = [json.dumps(e, sort_keys=True) for e in (s if all_of else s[-1:])]
                if any(k not in seen for k in ks):
                    seen.update(ks)
                    out.append(s)
            return out
        pairs = parallel(_pair, [(x, cases) for x in cases] + look, 400)
        self.validate(fresh(pairs, False), "pool, one after the other")
        times, secs = (5000, 1.2) if self.tier == "quick" else (50000, 20.0)
        self.validate(fresh(parallel(_marathon, [(x, cases, times, secs) for x in cases], 900), True), "pool, one call many times")
        step = 4 if self.tier == "quick" else 40
        md = parallel(_medley, [(self.seed, i * step, (i + 1) * step) for i in range(8)], 400 if self.tier == "quick" else 1500)
        self.validate([s for ss, _ in md for s in ss], "many calls, in several orders and in threads")
        t2 = time.time()
        jobs = [(x, [y for y, h in zip(cases, group) if h == g], self.seed, limit, opcodes) for x, g in zip(cases, group)]
        rs = parallel(_twins, jobs, 3000 if opcodes else 400)
        n = sum(k for _, k in rs)
        self.nsched += n
        for s, _ in rs:
            for e in s:
                e.pop("sched", None)
        self.validate(fresh([s for s, _ in rs if s], True), "pool, in two threads")
        self.models.append({"module": "McPool", "states": r["states"], "calls": len(cases), "pairs_one_after_the_other": len(pairs), "pairs_in_two_threads": len(rs),
                            "repetitions_of_one_call": times, "calls_in_several_orders_and_threads": sum(k for _, k in md),
                            "schedules": n, "distinct_outcomes_validated": len(seen), "laws": r["laws"], "rejected": len(self.rep.found) - before,
                            "model_s": round(t1 - t0, 1), "in_sequence_s": round(t2 - t1, 1), "replay_s": round(time.time() - t1, 1)})

    def known(self) -> None:
        import codec
        for op, node, what in known(self.prop):
            ev = codec.run_call(op, [node])
            r = tlc.validate([[ev]], self.dir)
            if r["rejects"]:
                print(f"KNOWN-FINDING: property={self.prop} {what}", flush=True)

    def evidence(self, wall: float) -> None:
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events": self.events, "calls_that_returned": self.returned, "events_by_source": self.parts,
               "events_the_property_leaves_open": self.vacuous, "schedules_replayed": self.nsched, "models": self.models, "samples": self.samples[:6]}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": ["TLC evaluates the specification in /verif/spec correctly",
                              "the harness records the calls and their results faithfully (harness/codec.py)"],
              "wall_s": round(wall, 1), "violations": len(self.rep.found)}
        with open(os.path.join(EVIDENCE, f"{self.prop}.json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)


def main(prop: str) -> int:
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    os.makedirs(EVIDENCE, exist_ok=True)
    t0 = time.time()
    run = Run(prop, tier, seed)
    try:
        run.known()
        if prop == "C16":
            run.pool(30 if tier == "quick" else 2000)
            run.schedules(100, 100, seed)
        for m in MODELS.get(prop, []):
            run.model(m, tier == "thorough")
        if prop in HEAP:
            run.histories(tier == "thorough")
        run.random(SESSIONS[prop], seed)
        if tier == "thorough":
            budget = float(os.environ.get("VERIF_BUDGET", "1500"))
            i = SESSIONS[prop]
            while time.time() - t0 < budget and not run.rep.found:
                run.random(1000, seed, i)
                i += 1000
        run.evidence(time.time() - t0)
        rc = run.rep.finish()
        print(f"{prop}: {run.traces} traces, {run.events} events, {run.states} states, {time.time() - t0:.1f} s, "
              + ("violated" if rc else "held"))
        return rc
    except Exception:
        traceback.print_exc()
        if run.rep.found:
            run.evidence(time.time() - t0)
            return run.rep.finish()
        return 2
    finally:
        shutil.rmtree(run.dir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
