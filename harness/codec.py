"""Python values <-> specification nodes, and the operations the specification names.

Only public constructors, attributes and methods of snuba_sdk are used.
"""
from __future__ import annotations

import json
import os
import signal
import sys
from contextlib import contextmanager
from datetime import date, datetime, timedelta, timezone, tzinfo
from typing import Any

REPO = "/repo"
sys.path.insert(0, REPO)
import snuba_sdk as S  # noqa: E402

assert os.path.realpath(S.__file__).startswith(REPO + "/"), S.__file__
from snuba_sdk.conditions import BooleanOp  # noqa: E402
from snuba_sdk.legacy import json_to_snql  # noqa: E402
from snuba_sdk.mql.mql import parse_mql  # noqa: E402
from snuba_sdk.query_validation import validate_required_columns  # noqa: E402
from snuba_sdk.query_visitors import (  # noqa: E402
    ExpressionSearcher,
    find_column_in_function,
    is_aggregate,
)
from snuba_sdk.schema import Column as SchemaColumn  # noqa: E402
from snuba_sdk.schema import DataModel  # noqa: E402
from snuba_sdk.snuba import is_aggregation_function  # noqa: E402

Node = dict


def N(k: str, v: str = "", c: Any = ()) -> Node:
    return {"k": k, "v": v, "c": list(c)}


NONE = N("none")


def Str(s: str) -> Node:
    return N("str", s)


def Int(i: int) -> Node:
    return N("int", str(int(i)))


def Flt(f: float) -> Node:
    return N("float", repr(float(f)))


def Bool(b: bool) -> Node:
    return N("bool", "True" if b else "False")


def List(*c: Node) -> Node:
    return N("list", "", c)


def Tup(*c: Node) -> Node:
    return N("tuple", "", c)


def Kv(k: str, x: Node) -> Node:
    return N("kv", k, [x])


def Dict(d: dict) -> Node:
    return N("dict", "", [Kv(k, d[k]) for k in sorted(d)])


def Ref(i: int) -> Node:
    return N("ref", str(i))


# kind -> (class, public fields in the order of the children)
CLASSES: dict[str, tuple[type, tuple[str, ...]]] = {
    "col": (S.Column, ("name", "entity")),
    "aliased": (S.AliasedExpression, ("exp", "alias")),
    "cfn": (S.CurriedFunction, ("function", "initializers", "parameters", "alias")),
    "fn": (S.Function, ("function", "parameters", "alias")),
    "ident": (S.Identifier, ("name",)),
    "lambda": (S.Lambda, ("identifiers", "transformation")),
    "entity": (S.Entity, ("name", "alias", "sample", "data_model")),
    "storage": (S.Storage, ("name", "sample", "data_model")),
    "rel": (S.Relationship, ("lhs", "name", "rhs")),
    "join": (S.Join, ("relationships",)),
    "cond": (S.Condition, ("lhs", "op", "rhs")),
    "bcond": (S.BooleanCondition, ("op", "conditions")),
    "and": (S.And, ("conditions",)),
    "or": (S.Or, ("conditions",)),
    "orderby": (S.OrderBy, ("exp", "direction")),
    "limitby": (S.LimitBy, ("columns", "count")),
    "limit": (S.Limit, ("limit",)),
    "offset": (S.Offset, ("offset",)),
    "gran": (S.Granularity, ("granularity",)),
    "totals": (S.Totals, ("totals",)),
    "extrap": (S.Extrapolate, ("extrapolate",)),
    "query": (
        S.Query,
        ("match", "select", "groupby", "array_join", "where", "having", "orderby",
         "limitby", "limit", "offset", "granularity", "totals"),
    ),
    "metric": (S.Metric, ("public_name", "mri", "id")),
    "ts": (S.Timeseries, ("metric", "aggregate", "aggregate_params", "filters", "groupby")),
    "formula": (S.Formula, ("function_name", "parameters", "aggregate_params", "filters", "groupby")),
    "rollup": (S.Rollup, ("interval", "totals", "orderby", "granularity")),
    "scope": (S.MetricsScope, ("org_ids", "project_ids", "use_case_id")),
    "mq": (
        S.MetricsQuery,
        ("query", "start", "end", "rollup", "scope", "limit", "offset", "extrapolate", "indexer_mappings"),
    ),
    "dq": (S.DeleteQuery, ("storage_name", "column_conditions")),
    "flags": (S.Flags, ("totals", "consistent", "turbo", "debug", "dry_run", "legacy")),
    "request": (S.Request, ("dataset", "app_id", "query", "flags", "parent_api", "tenant_ids")),
}
KIND_OF = {cls: (k, fs) for k, (cls, fs) in CLASSES.items()}
ENUMS = {"op": S.Op, "bop": BooleanOp, "dir": S.Direction}


class BuildFailed(Exception):
    """A part of an argument could not be constructed."""

    def __init__(self, n: Node, exc: BaseException) -> None:
        self.node = n
        self.exc = exc


class Zone(tzinfo):
    """A time zone whose offset depends on the time of the year."""

    def __init__(self, name: str, std: int, dst: int, summer: range) -> None:
        self.name, self.std, self.dst_, self.summer = name, std, dst, summer

    def seconds(self, month: int) -> int:
        return self.dst_ if month in self.summer else self.std

    def utcoffset(self, d: Any) -> Any:
        return None if d is None else timedelta(seconds=self.seconds(d.month))

    def dst(self, d: Any) -> Any:
        return None if d is None else timedelta(seconds=self.seconds(d.month) - self.std)

    def tzname(self, d: Any) -> str:
        return self.name

    def __repr__(self) -> str:
        return self.name

    def __reduce__(self) -> Any:
        return (_zone, (self.name,))


def _zone(name: str) -> Zone:
    return next(z for z in ZONES if z.name == name)


ZONES = [Zone("North/Town", 3600, 7200, range(4, 11)), Zone("West/Town", -18000, -14400, range(4, 11)),
         Zone("South/Isle", 41400, 37800, range(4, 11))]


class Opaque:
    """An object that is not of any type the SDK knows."""


# what a request has if nothing is said
DEFAULTS = {3: N("flags", "", [NONE] * 6), 4: Str("<unknown>"), 5: N("dict")}


def construct(k: str, args: list[Any], nodes: list[Node]) -> Any:
    cls, fields = CLASSES[k]
    # trailing None arguments are left to the defaults of the constructor, except where None is no default
    if k in ("request", "flags", "rollup", "metric", "mq", "query", "formula", "ts", "cfn", "fn", "entity", "storage"):
        kw = dict(zip(fields, args))
        required = {"request": 3, "flags": 0, "rollup": 0, "metric": 0, "mq": 0, "query": 1, "formula": 1,
                    "ts": 2, "cfn": 1, "fn": 1, "entity": 1, "storage": 1}[k]
        if k == "request":
            # half of the requests leave the defaults to the SDK
            if len(nodes) == 6 and len(nodes[1]["v"]) % 2 == 1:
                kw = {f: x for i, (f, x) in enumerate(kw.items()) if i < 3 or nodes[i] != DEFAULTS[i]}
            return cls(**kw)
        kw = {f: x for i, (f, x) in enumerate(kw.items()) if i < required or x is not None}
        return cls(**kw)
    return cls(*args)


def build(n: Node, env: list[Any] | None = None) -> Any:
    k, v, c = n["k"], n["v"], n["c"]
    if k == "none":
        return None
    if k == "str":
        return v
    if k == "int":
        return int(v)
    if k == "bool":
        return v == "True"
    if k == "float":
        return float(v)
    if k == "bytes":
        return v.encode("utf-8")
    if k == "badbytes":
        return b"\xff" + v.encode("utf-8")
    if k == "ref":
        assert env is not None
        return env[int(v) - 1]
    if k == "dt":
        y, mo, d, h, mi, s, us = (int(x["v"]) for x in c[:7])
        off = c[7]
        if off["k"] == "none":
            return datetime(y, mo, d, h, mi, s, us)
        sec = int(off["v"])
        for z in ZONES:      # a zone with daylight saving time that has this offset at this time
            if z.seconds(mo) == sec and s % 4 != 3:
                return datetime(y, mo, d, h, mi, s, us, tzinfo=z)
        return datetime(y, mo, d, h, mi, s, us, tzinfo=timezone(timedelta(seconds=sec)))
    if k == "date":
        return date(*(int(x["v"]) for x in c))
    if k == "list":
        return [build(x, env) for x in c]
    if k == "tuple":
        return tuple(build(x, env) for x in c)
    if k == "set":
        return {build(x, env) for x in c}
    if k == "dict":
        return {x["v"]: build(x["c"][0], env) for x in c}
    if k in ENUMS:
        return ENUMS[k][v]
    if k == "dm":
        cols = [SchemaColumn(x["v"], required=x["c"][0]["v"] == "True") for x in c[0]["c"]]
        return DataModel(cols, SchemaColumn(c[1]["v"], required=c[1]["c"][0]["v"] == "True"))
    if k == "obj":
        return {("t",): 1, "s": 2} if v == "dict" else Opaque()
    args = [build(x, env) for x in c]
    try:
        return construct(k, args, c)
    except Exception as e:
        raise BuildFailed(n, e)


def project(o: Any) -> Node:
    t = type(o)
    if o is None:
        return NONE
    if t is bool:
        return Bool(o)
    if t is int:
        return Int(o)
    if t is float:
        return Flt(o)
    if t is str:
        return Str(o)
    if t is bytes:
        try:
            return N("bytes", o.decode("utf-8"))
        except UnicodeDecodeError:
            return N("badbytes", o[1:].decode("utf-8", "replace"))
    if t is datetime:
        off = o.utcoffset()
        if off is not None and off.microseconds:
            return N("obj", "datetime")
        return N("dt", "", [Int(x) for x in (o.year, o.month, o.day, o.hour, o.minute, o.second, o.microsecond)]
                 + [NONE if off is None else Int(off.days * 86400 + off.seconds)])
    if t is date:
        return N("date", "", [Int(o.year), Int(o.month), Int(o.day)])
    if t is list:
        return N("list", "", [project(x) for x in o])
    if t is tuple:
        return N("tuple", "", [project(x) for x in o])
    if t in (set, frozenset):
        return N("set", "", sorted((project(x) for x in o), key=lambda x: json.dumps(x, sort_keys=True)))
    if t is dict:
        if all(type(x) is str for x in o):
            return N("dict", "", [Kv(x, project(o[x])) for x in sorted(o)])
        return N("obj", "dict")
    if t is S.Op:
        return N("op", o.name)
    if t is BooleanOp:
        return N("bop", o.name)
    if t is S.Direction:
        return N("dir", o.name)
    if t is DataModel:
        cols = sorted(o.column_set.columns, key=lambda x: (x.name, x.required))
        return N("dm", "", [N("list", "", [N("scol", x.name, [Bool(x.required)]) for x in cols]),
                            N("scol", o.required_time_column.name, [Bool(o.required_time_column.required)])])
    if t in KIND_OF:
        k, fs = KIND_OF[t]
        c = [project(getattr(o, f)) for f in fs]
        if k in ("and", "or") and o.op.name != k.upper():
            return N("obj", k)
        return N(k, "", c)
    return N("obj", "" if t is Opaque else t.__name__)


class CallTimeout(BaseException):
    pass


def _on_alarm(signum: int, frame: Any) -> None:
    raise CallTimeout()


@contextmanager
def time_limit(seconds: float) -> Any:
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


KINDS_BY_NAME = {x: getattr(S, x) for x in ("Column", "AliasedExpression", "Function", "CurriedFunction", "Condition")}
RT_START = datetime(2024, 1, 1)
RT_END = datetime(2024, 1, 2)


def _mq_around(x: Any) -> Any:
    return S.MetricsQuery(query=x, start=RT_START, end=RT_END, rollup=S.Rollup(interval=60, granularity=60),
                          scope=S.MetricsScope([1], [1]), indexer_mappings={})


def perform(op: str, nodes: list[Node], args: list[Any]) -> Any:
    """The call itself; the value returned is what the specification calls the result."""
    if op == "new":
        return construct(nodes[0]["k"], args, nodes[0]["c"])
    x = args[0]
    if op == "set":
        return getattr(x, "set_" + args[1])(*args[2:])
    if op == "validate":
        return x.validate()
    if op == "serialize":
        return x.serialize()
    if op == "to_dict":
        return x.to_dict()
    if op == "json":
        return json.loads(x.serialize())
    if op == "json_mql":
        return json.loads(x.serialize_mql())
    if op in ("str", "print"):
        r = str(x) if op == "str" else x.print()
        return r if isinstance(x, S.Query) else json.loads(r)
    if op == "required":
        return validate_required_columns(x)
    if op == "colparts":
        return (getattr(x, "subscriptable", None), getattr(x, "key", None))
    if op == "parse":
        return parse_mql(x)
    if op in ("roundtrip", "strictrt"):
        return parse_mql(_mq_around(x).serialize()["mql"])
    if op == "reparse":
        return parse_mql(_mq_around(parse_mql(x)).serialize()["mql"])
    if op == "legacy":
        return json_to_snql(x, args[1])
    if op == "find":
        return ExpressionSearcher(KINDS_BY_NAME[args[1]]).visit(x)
    if op == "aggname":
        return is_aggregation_function(x, args[1])
    if op == "isagg":
        return is_aggregate(x, args[1])
    if op == "hascol":
        return find_column_in_function(x, args[1])
    raise AssertionError(op)


def mro(e: BaseException) -> list[str]:
    return [c.__name__ for c in type(e).__mro__ if c is not object]


def guarded(f: Any, limit: float = 20.0) -> tuple[bool, Any, list[str], str]:
    """Run f: (returned?, value, class names of the exception, its message)."""
    try:
        with time_limit(limit):
            return True, f(), [], ""
    except CallTimeout:
        return False, None, ["CallTimeout"], "timed out"
    except BaseException as e:  # noqa: B902
        return False, None, mro(e), str(e)[:300]


def event(op: str, a: list[Node], ok: bool, r: Node, e: list[str], asp: str = "full", keep: bool = False,
          chg: list[Any] | None = None) -> dict:
    return {"op": op, "a": a, "ok": ok, "r": r, "e": e, "asp": asp, "keep": keep, "chg": chg or []}


def run_call(op: str, nodes: list[Node], asp: str = "full") -> dict:
    """One call on fresh arguments. If a part of them cannot be built, that is the event."""
    try:
        args = [build(x) for x in nodes[0]["c"]] if op == "new" else [build(x) for x in nodes]
    except BuildFailed as f:
        return event("new", [f.node], False, NONE, mro(f.exc))
    ok, val, e, _ = guarded(lambda: perform(op, nodes, args))
    r = NONE
    if ok and asp != "accept":
        ok2, r2, e2, _ = guarded(lambda: project(val))
        r = r2 if ok2 else N("obj", "unprojectable")
    return event(op, nodes, ok, r, e, asp)


class Session:
    """A history of calls over objects that live on and share parts."""

    def __init__(self) -> None:
        self.env: list[Any] = []
        self.snap: list[Node] = []
        self.events: list[dict] = []

    def changes(self) -> list[dict]:
        out = []
        for i, o in enumerate(self.env):
            try:
                n = project(o)
            except Exception:
                n = N("obj", "unprojectable")
            if n != self.snap[i]:
                self.snap[i] = n
                out.append({"h": i + 1, "n": n})
        return out

    def _keep(self, val: Any, r: Node) -> int:
        self.env.append(val)
        self.snap.append(r)
        return len(self.env)

    def input(self, n: Node) -> int:
        """A value the program makes by itself; its handle, 0 if it cannot be made."""
        try:
            val = build(n, self.env)
        except BuildFailed as f:
            self.events.append(event("new", [f.node], False, NONE, mro(f.exc)))
            return 0
        r = project(val)
        self.events.append(event("input", [], True, r, [], keep=True))
        return self._keep(val, r)

    def mutate(self, f: Any) -> None:
        f(self.env)
        self.events.append(event("mutate", [], True, NONE, [], chg=self.changes()))

    def call(self, op: str, nodes: list[Node], keep: bool = False, asp: str = "full") -> int:
        """Returns the handle of the result if it is kept, else whether the call returned."""
        try:
            args = [build(x, self.env) for x in (nodes[0]["c"] if op == "new" else nodes)]
        except BuildFailed as f:
            self.events.append(event("new", [f.node], False, NONE, mro(f.exc), chg=self.changes()))
            return 0
        ok, val, e, _ = guarded(lambda: perform(op, nodes, args))
        r = NONE
        if ok and (asp != "accept" or keep):
            ok2, r2, _, _ = guarded(lambda: project(val))
            r = r2 if ok2 else N("obj", "unprojectable")
        self.events.append(event(op, nodes, ok, r, e, asp, keep and ok, self.changes()))
        if ok and keep:
            return self._keep(val, r)
        return 1 if ok else 0
