"""Running TLC: trace validation and model checking."""
from __future__ import annotations

import json
import os
import re
import subprocess
import tempfile
from typing import Any

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


def run_tlc(module: str, cfg: str, workdir: str, timeout: float, workers: int = 8, extra: list[str] | None = None,
            xmx: str = "12g") -> str:
    cfgfile = os.path.join(workdir, f"{module}_{os.urandom(4).hex()}.cfg")
    with open(cfgfile, "w", encoding="utf-8") as f:
        f.write(cfg)
    meta = tempfile.mkdtemp(prefix="meta", dir=workdir)
    cmd = ["java", "-Xss128m", f"-Xmx{xmx}", "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8", f"-Djava.io.tmpdir={workdir}", "-Dstdout.encoding=UTF-8",
           f"-DTLA-Library={SPEC}", "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-config", cfgfile, "-deadlock", "-noGenerateSpecTE"] + (extra or []) + [os.path.join(SPEC, module + ".tla")]
    env = dict(os.environ, LC_ALL="C.UTF-8")
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        raise MachineryError(f"TLC timed out on {module}: {(e.stdout or b'')[-2000:]!r}")
    return p.stdout.decode("utf-8", "replace")


def stats(out: str) -> tuple[int, int]:
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        raise MachineryError("no statistics from TLC:\n" + out[-3000:])
    return int(m[-1][0]), int(m[-1][1])


def chars_file() -> str:
    return os.path.join(SPEC, "chars.json")


TRACE_CFG = """SPECIFICATION TraceSpec
CONSTANTS
  TraceFile = "{trace}"
  CharsFile = "{chars}"
  Calls <- NoCalls
  Mutations <- NoCalls
  Inputs <- NoCalls
"""


def tla_lines(out: str, tag: str) -> list[Any]:
    """The JSON payloads of PrintT("<tag> <json>") lines."""
    res = []
    for line in out.splitlines():
        if line.startswith('"' + tag + " ") and line.endswith('"'):
            body = re.sub(r"\\(.)", r"\1", line[1:-1])
            res.append(body[len(tag) + 1:])
    return res


def validate(sessions: list[list[dict]], workdir: str, timeout: float = 600) -> dict:
    """Check the recorded sessions against the specification."""
    path = os.path.join(workdir, f"trace_{os.urandom(4).hex()}.ndjson")
    with open(path, "w", encoding="utf-8") as f:
        for ev in sessions:
            f.write(json.dumps({"ev": ev}, ensure_ascii=False) + "\n")
    out = run_tlc("SdkTrace", TRACE_CFG.format(trace=path, chars=chars_file()), workdir, timeout)
    rejects = []
    for body in tla_lines(out, "REJECT"):
        try:
            d = json.loads(body)
        except ValueError:
            s = re.search(r'"s":(\d+)', body)
            p = re.search(r'"p":(\d+)', body)
            w = re.search(r'"why":"(\w+)"', body)
            d = {"s": int(s.group(1)), "p": int(p.group(1)), "why": w.group(1) if w else "?", "errs": [], "want": None}
        rejects.append(d)
    vac = out.count('"VACUOUS')
    want = sum(len(s) + 1 for s in sessions)
    err = None
    try:
        gen, distinct = stats(out)
    except MachineryError:
        gen = distinct = 0
    if distinct != want or "Error:" in out:
        err = out[-4000:]
        if not rejects:
            raise MachineryError(f"TLC did not consume the whole trace ({distinct} of {want} states):\n{err}")
    return {"rejects": rejects, "states": distinct, "transitions": gen, "vacuous": vac, "error": err, "trace": path}


MODEL_CFG = """SPECIFICATION McSpec
INVARIANT Laws
CONSTANTS
  CharsFile = "{chars}"
  OutFile = "{out}"
  Prop = "{prop}"
  Deep = {deep}
  Calls <- McCalls
  Cases <- McCases
  Groups <- McGroups
  Mutations <- NoSteps
  Inputs <- McInputs
"""


def _in_order(n: dict) -> dict:
    """Mappings have their keys in order, as in the events."""
    if n.get("k") == "dict":
        n["c"] = sorted(n["c"], key=lambda kv: kv["v"])
    return n


def check_model(module: str, prop: str, deep: bool, workdir: str, timeout: float) -> dict:
    """Check the laws of a model on its universe; the calls of the universe."""
    cfg = MODEL_CFG.format(chars=chars_file(), out=os.path.join(workdir, "cases"), prop=prop, deep="TRUE" if deep else "FALSE")
    out = run_tlc(module, cfg, workdir, timeout)
    if "Error:" in out:
        raise MachineryError(f"model {module} for {prop}:\n{out[-4000:]}")
    gen, distinct = stats(out)
    cases, group = [], []
    for f in sorted(os.listdir(workdir)):
        if f.startswith("cases"):
            with open(os.path.join(workdir, f), encoding="utf-8") as h:
                for line in h:
                    cases.append(json.loads(line, object_hook=_in_order))
                    group.append(f)
    groups = sum(f.startswith("cases") for f in os.listdir(workdir))
    # TLC's fingerprint of a string takes the low byte of each character, so a few
    # calls that differ in such characters only can count as one state
    if not 0 <= len(cases) + groups + 1 - distinct <= 4:
        raise MachineryError(f"model {module} for {prop}: {distinct} states, {len(cases)} calls in {groups} groups")
    return {"states": distinct, "cases": cases, "group": group, "laws": "Laws held in every state"}


HEAP_CFG = """SPECIFICATION HSpec
PROPERTIES HPersistent HFresh
CONSTANTS
  CharsFile = "{chars}"
  Prop = "{prop}"
  Deep = {deep}
  Calls <- NoSteps
  Mutations <- NoSteps
  Inputs <- NoSteps
"""


def histories(prop: str, deep: bool, workdir: str, timeout: float) -> dict:
    """All histories of the scenarios of a property."""
    out = run_tlc("McHeap", HEAP_CFG.format(chars=chars_file(), prop=prop, deep="TRUE" if deep else "FALSE"), workdir, timeout)
    if "Error:" in out:
        raise MachineryError(f"model McHeap for {prop}:\n{out[-4000:]}")
    hs = [json.loads(x) for x in tla_lines(out, "HIST")]
    if not hs:
        raise MachineryError(f"model McHeap for {prop}: no histories\n{out[-2000:]}")
    return {"states": stats(out)[1], "histories": hs}
