"""Seeded random inputs, as specification nodes."""
from __future__ import annotations

import json
import os
import random
from typing import Any, Callable

from codec import NONE, Bool, Dict, Flt, Int, Kv, List, N, Node, Str, Tup

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "..", "spec", "chars.json"), encoding="utf-8") as _f:
    CH = json.load(_f)
UNIWORD = CH["uniword"]
UNISPACE = CH["unispace"] + CH["sepctl"]
UNIOTHER = CH["uniother"]
ASCII = [chr(i) for i in range(32, 127)] + ["\t", "\n", "\r", "\f"]
ALLCH = ASCII + UNIWORD + UNISPACE + UNIOTHER
KNOWN = set(ALLCH) | {"😀"}          # the characters the specification classifies (spec/chars.json)


def ascii_upper(s: str) -> str:
    return "".join(c.upper() if c in LOWER else c for c in s)


LOWER = "abcdefghijklmnopqrstuvwxyz"
ALNUM = LOWER + LOWER.upper() + "0123456789_"
TRICKY = ["'", '"', "\\", "\n", "`", " ", "(", ")", "[", "]", "{", "}", ",", "*", ":", ";", "-", "--", "/*", "\r", "\t",
          "\\n", "\\'", '\\"', "''", "é", "中", "\u2028", "\u0000", "😀", "%", "_", "$", "NULL", " AND ", " OR ", "a", "b", "1"]

OPS = ["GT", "LT", "GTE", "LTE", "EQ", "NEQ", "IN", "NOT_IN", "LIKE", "NOT_LIKE", "IS_NULL", "IS_NOT_NULL"]
UNARY = {"IS_NULL", "IS_NOT_NULL"}
QF = ["match", "select", "groupby", "array_join", "where", "having", "orderby", "limitby", "limit", "offset",
      "granularity", "totals"]


def col(name: str, e: Node = NONE) -> Node:
    return N("col", "", [Str(name), e])


def fn(f: str, ps: Node, alias: Node = NONE) -> Node:
    return N("fn", "", [Str(f), ps, alias])


def cfn(f: str, ini: Node, ps: Node, alias: Node = NONE) -> Node:
    return N("cfn", "", [Str(f), ini, ps, alias])


def op(o: str) -> Node:
    return N("op", o)


def cond(lhs: Node, o: str, rhs: Node = NONE) -> Node:
    return N("cond", "", [lhs, op(o), rhs])


def boolc(kind: str, cs: list[Node], style: str = "") -> Node:
    if style == "bcond":
        return N("bcond", "", [N("bop", kind.upper()), List(*cs)])
    return N(kind.lower(), "", [List(*cs)])


def entity(name: str, alias: Node = NONE, sample: Node = NONE, dm: Node = NONE) -> Node:
    return N("entity", "", [Str(name), alias, sample, dm])


def storage(name: str, sample: Node = NONE, dm: Node = NONE) -> Node:
    return N("storage", "", [Str(name), sample, dm])


def rel(a: Node, name: str, b: Node) -> Node:
    return N("rel", "", [a, Str(name), b])


def join(rels: list[Node]) -> Node:
    return N("join", "", [List(*rels)])


def orderby(x: Node, d: str = "ASC") -> Node:
    return N("orderby", "", [x, N("dir", d)])


def scol(name: str, req: bool) -> Node:
    return N("scol", name, [Bool(req)])


def dm(cols: list[tuple[str, bool]], time: str) -> Node:
    uniq = {c[0]: c for c in cols}
    return N("dm", "", [N("list", "", [scol(*uniq[n]) for n in sorted(uniq)]), scol(time, True)])


def query(match: Node, **kw: Node) -> Node:
    return N("query", "", [match] + [kw.get(f, NONE) for f in QF[1:]])


def one(kind: str, x: Node) -> Node:
    return N(kind, "", [x])


def dt(y: int, mo: int, d: int, h: int = 0, mi: int = 0, s: int = 0, us: int = 0, off: int | None = None) -> Node:
    return N("dt", "", [Int(x) for x in (y, mo, d, h, mi, s, us)] + [NONE if off is None else Int(off)])


def mdays(y: int, m: int) -> int:
    leap = (y % 4 == 0 and y % 100 != 0) or y % 400 == 0
    return [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


class Gen:
    def __init__(self, seed: Any) -> None:
        self.r = random.Random(seed)
        self.colgen: Callable[[], Node] = lambda: col(self.col_name())
        self.big = 0.02
        self.rep = 0.12
        self.pool: dict[str, list[Any]] = {}

    def echo(self, kind: str, f: Callable[[], Any]) -> Any:
        """Something new, or something of this kind again: repetitions are where shortcuts go wrong."""
        pool = self.pool.setdefault(kind, [])
        if pool and self.p(self.rep):
            return json.loads(json.dumps(self.pick(pool)))
        x = f()
        pool.append(x)
        del pool[:-6]
        return x

    # ---------------------------------------------------------------- basics
    def p(self, x: float) -> bool:
        return self.r.random() < x

    def pick(self, xs: Any) -> Any:
        return xs[self.r.randrange(len(xs))]

    def size(self, small: int, large: int, lo: int = 0) -> int:
        if self.p(self.big):
            return self.r.randint(lo, large)
        return self.r.randint(lo, max(lo, small))

    def text(self, maxlen: int = 8) -> str:
        m = self.r.random()
        if m < 0.25:
            return "".join(self.pick(ALNUM) for _ in range(self.r.randint(0, maxlen)))
        if m < 0.75:
            return "".join(self.pick(TRICKY) for _ in range(self.r.randint(0, maxlen)))
        if m < 0.97:
            return "".join(self.pick(ALLCH) for _ in range(self.r.randint(0, maxlen)))
        return "".join(self.pick(TRICKY) for _ in range(self.size(maxlen, 400)))

    def intv(self) -> Node:
        m = self.r.random()
        if m < 0.6:
            return Int(self.r.randint(-20, 20))
        if m < 0.8:
            return Int(self.pick([0, 1, -1, 2**31 - 1, 2**31, -2**31, 2**63, 10**18, 9999, 10000, 10001]))
        return Int(self.r.randint(-10**25, 10**25))

    def floatv(self) -> Node:
        m = self.r.random()
        if m < 0.5:
            return Flt(round(self.r.uniform(-100, 100), self.r.randint(0, 6)))
        if m < 0.8:
            return Flt(self.pick([0.0, -0.0, 1.0, 0.1, 1e16, 1e-7, 1.5e300, 123456789.125, -2.5, 1e22, 5e-324]))
        return Flt(self.r.uniform(-1, 1) * 10 ** self.r.randint(-20, 20))

    def dtv(self) -> Node:
        y = self.pick([2, 1970, 1999, 2000, 2023, 2024, 2100, 9998, self.r.randint(2, 9998)])
        mo = self.r.randint(1, 12)
        d = self.pick([1, mdays(y, mo), self.r.randint(1, mdays(y, mo))])
        h = self.pick([0, 23, self.r.randint(0, 23)])
        off = None
        if self.p(0.6):
            off = self.pick([0, 3600, 3600 if mo in (11, 12, 1, 2, 3) else 7200, -18000 if mo in (11, 12, 1, 2, 3) else -14400, -3600, 19800, 20700, -12600, 50400, -43200, 86340, -86340, 60, -60, 1, -1, 86399,
                             self.r.randint(-86399, 86399), 900 * self.r.randint(-56, 56)])
        us = self.pick([0, 0, 1, 999999, 100000, 10, self.r.randint(0, 999999)])
        return dt(y, mo, d, h, self.r.randint(0, 59), self.r.randint(0, 59), us, off)

    def datev(self) -> Node:
        y, mo = self.r.randint(1, 9999), self.r.randint(1, 12)
        return N("date", "", [Int(y), Int(mo), Int(self.r.randint(1, mdays(y, mo)))])

    def lit(self) -> Node:
        return self.echo("lit", lambda: self._lit())

    def _lit(self) -> Node:
        m = self.r.randrange(20)
        if m == 0:
            return NONE
        if m == 1:
            return Bool(self.p(0.5))
        if m < 5:
            return self.intv()
        if m < 7:
            return self.floatv()
        if m < 14:
            return Str(self.text())
        if m < 16:
            return N("bytes", self.text())
        if m < 18:
            return self.dtv()
        return self.datev()

    def scalar(self, depth: int = 2) -> Node:
        """A literal, or an array or tuple of literals and expressions."""
        if depth <= 0 or self.p(0.65):
            return self.lit()
        return N(self.pick(["list", "tuple"]), "", [
            self.expr(depth - 1) if self.p(0.2) else self.scalar(depth - 1) for _ in range(self.size(3, 30))])

    # ----------------------------------------------------------------- names
    def col_name(self) -> str:
        if self.p(0.5):
            return self.pick(["a", "b", "c", "event_id", "project_id", "timestamp", "tags[x]", "tags[a.b]", "measurements[lcp]"])
        s = self.pick(LOWER + LOWER.upper() + "_") + "".join(
            self.pick(list(ALNUM + ".:/@") + UNIWORD) for _ in range(self.size(5, 60)))
        if self.p(0.3):
            s += "[" + "".join(self.pick([c for c in ALLCH if c not in "[]"]) for _ in range(self.size(5, 40))) + "]"
        return s

    def fn_name(self) -> str:
        if self.p(0.5):
            return self.pick(["count", "uniq", "quantile", "plus", "toString", "tuple", "arrayMap", "countIf", "topK(3)"])
        return self.pick(LOWER + LOWER.upper()) + "".join(
            self.pick(list(ALNUM + "().,+'\": []-") + UNIWORD) for _ in range(self.size(5, 40, 1)))

    def alias(self) -> str:
        return self.echo("alias", lambda: self._alias())

    def _alias(self) -> str:
        if self.p(0.5):
            return self.pick(["x", "y", "z", "count", "tags[a]", "a.b"])
        return "".join(self.pick(ALNUM + ".+*/:-[]()@") for _ in range(self.size(6, 60, 1)))

    def ident_name(self) -> str:
        return self.pick(["x", "y", "_v"]) if self.p(0.6) else self.pick(LOWER + "_") + "".join(
            self.pick(ALNUM) for _ in range(self.size(4, 30)))

    def entity_name(self) -> str:
        return self.pick(["events", "sessions", "transactions", "e_x", "A"]) if self.p(0.7) else "".join(
            self.pick(LOWER + LOWER.upper() + "_") for _ in range(self.size(6, 40, 1)))

    def ent_alias(self) -> str:
        return self.pick(["e", "t", "s", "ev", "tr", "x.y", "a b", "é"])

    # ----------------------------------------------------------- expressions
    def seq(self, kids: list[Node]) -> Node:
        return N(self.pick(["list", "list", "tuple"]), "", kids)

    def param(self, depth: int) -> Node:
        return self.echo("param%d" % depth, lambda: self._param(depth))

    def _param(self, depth: int) -> Node:
        m = self.r.random()
        if depth <= 0:
            return self.colgen() if m < 0.5 else self.lit()
        if m < 0.3:
            return self.colgen()
        if m < 0.55:
            return self.func(depth - 1)
        if m < 0.62:
            return N("lambda", "", [self.seq([Str(self.ident_name()) for _ in range(self.size(2, 10))]), self.func(depth - 1)])
        if m < 0.68:
            return N("ident", "", [Str(self.ident_name())])
        return self.scalar(2)

    def func(self, depth: int, aliasp: float = 0.3, alias: str | None = None) -> Node:
        return self.echo(f"func{depth}{aliasp}{alias}", lambda: self._func(depth, aliasp, alias))

    def _func(self, depth: int, aliasp: float = 0.3, alias: str | None = None) -> Node:
        al = Str(alias) if alias is not None else (Str(self.alias()) if self.p(aliasp) else NONE)
        ps = NONE if self.p(0.04) else self.seq([self.param(depth) for _ in range(self.size(3, 20))])
        if self.p(0.3):
            ini = NONE if self.p(0.1) else self.seq(
                [self.colgen() if self.p(0.2) else self.lit() for _ in range(self.size(2, 10))])
            return cfn(self.fn_name(), ini, ps, al)
        return fn(self.fn_name(), ps, al)

    def expr(self, depth: int = 2) -> Node:
        return self.colgen() if self.p(0.5) else self.func(depth)

    def deep(self, depth: int) -> Node:
        """A chain of nested functions."""
        x = self.colgen()
        for _ in range(depth):
            sib = [self.lit()] if self.p(0.3) else []
            x = fn(self.fn_name(), self.seq([x] + sib)) if self.p(0.8) else cfn(
                self.fn_name(), List(self.intv()), self.seq(sib + [x]))
        return x

    def selectable(self, depth: int = 2) -> Node:
        return self.echo("sel", lambda: self._selectable(depth))

    def _selectable(self, depth: int = 2) -> Node:
        m = self.r.random()
        if m < 0.4:
            return self.colgen()
        if m < 0.55:
            return N("aliased", "", [self.colgen(), Str(self.alias()) if self.p(0.8) else NONE])
        if m < 0.97:
            return self.func(depth)
        return self.deep(self.size(5, 25, 2))

    def condition(self, depth: int = 2) -> Node:
        return self.echo("cond%d" % depth, lambda: self._condition(depth))

    def _condition(self, depth: int = 2) -> Node:
        o = self.pick(OPS)
        lhs = self.expr(depth)
        if o in UNARY:
            return cond(lhs, o)
        m = self.r.random()
        if o in ("IN", "NOT_IN") and m < 0.7:
            rhs = N(self.pick(["list", "tuple"]), "", [self.lit() for _ in range(self.size(3, 40))])
        elif m < 0.15:
            rhs = self.colgen()
        elif m < 0.3:
            rhs = self.func(depth)
        elif m < 0.45:
            rhs = self.scalar(2)
        else:
            rhs = self.lit()
        return cond(lhs, o, rhs)

    def orish(self) -> Node:
        return self.echo("orish", lambda: self._orish())

    def _orish(self) -> Node:
        """An OR of conditions that nearly or exactly qualifies for the IN rewriting."""
        lhs = self.expr(1)
        n = self.size(4, 120, 2)
        cs = []
        for _ in range(n):
            cs.append(cond(lhs, "EQ", self.lit() if self.p(0.8) else self.scalar(1)))
        m = self.r.random()
        i = self.r.randrange(n)
        if m < 0.10:
            cs[i] = cond(lhs, self.pick([o for o in OPS if o not in UNARY]), self.lit())
        elif m < 0.18:
            cs[i] = cond(lhs, self.pick(sorted(UNARY)))
        elif m < 0.30:
            cs[i] = cond(self.near(lhs), "EQ", self.lit())
        elif m < 0.38:
            cs[i] = boolc(self.pick(["and", "or"]), [cs[i], cond(lhs, "EQ", self.lit())])
        return boolc("or", cs, self.pick(["", "", "bcond"]))

    def near(self, x: Node) -> Node:
        """An expression that is almost x."""
        if x["k"] == "col":
            if self.p(0.5):
                return col(x["c"][0]["v"] + self.pick(["a", "_", ".x", "[k]"])) if "[" not in x["c"][0]["v"] else self.colgen()
            return self.colgen()
        m = self.r.random()
        y = json.loads(json.dumps(x))
        if m < 0.4:
            y["c"][-1] = Str(self.alias())
        elif m < 0.6:
            y["c"][-1] = NONE
        elif m < 0.8:
            ps = y["c"][2 if x["k"] == "cfn" else 1]
            if ps["k"] in ("list", "tuple") and ps["c"]:
                ps["c"][self.r.randrange(len(ps["c"]))] = self.pick([Int(1), Bool(True), Flt(1.0), Str("1"), N("bytes", "1"), self.lit()])
        else:
            y["c"][0] = Str(self.fn_name())
        return y

    def boolean(self, depth: int = 2) -> Node:
        if depth <= 0 or self.p(0.5):
            return self.condition(1)
        if self.p(0.15):
            return self.orish()
        return boolc(self.pick(["and", "or"]), [self.boolean(depth - 1) for _ in range(self.size(3, 15, 2))],
                     self.pick(["", "", "bcond"]))

    def sample(self) -> Node:
        m = self.r.random()
        if m < 0.7:
            return NONE
        if m < 0.85:
            return Flt(self.pick([0.1, 0.5, 1.0, 10.0, 1000000.0, 0.000001, 0.25, 1e-7, 0.123456789, 3.5, 0.1234567]))
        return Flt(float("%.*g" % (self.r.randint(1, 12), self.r.uniform(0, 10 ** self.r.randint(-8, 8)) + 1e-9)))

    # --------------------------------------------------------------- queries
    def join_match(self) -> tuple[Node, list[Node]]:
        """A valid join and its entities."""
        n = self.size(3, 6, 2)
        aliases = self.r.sample(["e", "t", "s", "ev", "tr", "x", "y1", "q.r"], min(n, 8))
        ents = [entity(self.entity_name(), Str(a), self.sample()) for a in aliases]
        rels = []
        for i in range(1, len(ents)):
            rels.append(rel(self.pick(ents[:i]), self.pick(["contains", "assigned", "r x", "é"]), ents[i]))
        if self.p(0.2):
            rels.append(rel(self.pick(ents), "again", self.pick(ents)))
        return N("join", "", [self.seq(rels)]), ents

    def exposed(self, q: Node) -> list[str]:
        out = []
        for s in q["c"][1]["c"]:
            if s["k"] == "col":
                out.append(s["c"][0]["v"])
            elif s["k"] in ("fn", "cfn") and s["c"][-1]["k"] == "str":
                out.append(s["c"][-1]["v"])
        return [x for x in out if self.is_col_name(x)]

    @staticmethod
    def is_col_name(s: str) -> bool:
        import re
        return bool(re.match(r"^[a-zA-Z_](\w|\.|:|/|@)*(\[([^\[\]]*)\])?\Z", s))

    def with_scope(self, colgen: Callable[[], Node], f: Callable[[], Any]) -> Any:
        old, self.colgen = self.colgen, colgen
        pool, self.pool = self.pool, {k: v for k, v in self.pool.items() if k in ("alias", "lit")}
        try:
            return f()
        finally:
            self.colgen = old
            self.pool = pool

    def match(self, depth: int, kinds: str = "esjq") -> tuple[Node, Callable[[], Node]]:
        k = self.pick(kinds)
        if k == "q" and depth <= 0:
            k = "e"
        if k == "q":
            inner = self.query(depth - 1)
            names = self.exposed(inner)
            if not names:
                inner["c"][1]["c"].append(col("inner_col"))
                # the added column must resolve in the inner query, too
                if inner["c"][0]["k"] not in ("entity", "storage") or inner["c"][0]["c"][-1]["k"] == "dm":
                    return self.match(depth, "e")
                names = ["inner_col"]
            return inner, lambda: col(self.pick(names))
        if k == "j":
            j, ents = self.join_match()
            return j, lambda: col(self.col_name(), self.pick(ents))
        model = NONE
        cg: Callable[[], Node] = lambda: col(self.col_name(), NONE if self.p(0.95) else entity("events", Str("e")))
        if self.p(0.2):
            names = ["a", "b", "timestamp", "tags", "c.d"]
            model = dm([(n, self.p(0.3)) for n in names], "timestamp")
            cg = lambda: col(self.pick(names + ["tags[x]", "a[k]"]))  # noqa: E731
        if k == "s":
            return storage(self.entity_name(), self.sample(), model), cg
        return entity(self.entity_name(), Str(self.ent_alias()) if self.p(0.2) else NONE, self.sample(), model), cg

    def query(self, depth: int = 2, kinds: str = "esjq", full: float = 0.35) -> Node:
        m, cg = self.match(depth, kinds)

        def body() -> Node:
            kw: dict[str, Node] = {"select": self.seq([self.selectable() for _ in range(self.size(3, 40, 1))])}
            if self.p(full):
                kw["groupby"] = self.seq([self.selectable() for _ in range(self.size(2, 10))])
            if self.p(full * 0.6):
                kw["array_join"] = self.seq([self.colgen() for _ in range(self.size(2, 8))])
            if self.p(full + 0.2):
                kw["where"] = List(*[self.boolean() for _ in range(self.size(3, 30))])
            if self.p(full * 0.8):
                kw["having"] = List(*[self.boolean() for _ in range(self.size(2, 20))])
            if self.p(full):
                kw["orderby"] = self.seq([orderby(self.expr(), self.pick(["ASC", "DESC"])) for _ in range(self.size(2, 10))])
            if self.p(full * 0.7):
                kw["limitby"] = N("limitby", "", [self.seq([self.colgen() for _ in range(self.size(2, 6, 1))]),
                                                  self.pick([Int(1), Int(10000), Bool(True), Int(self.r.randint(1, 10000))])])
            if self.p(full):
                kw["limit"] = one("limit", self.pick([Int(1), Int(10000), Bool(True), Int(self.r.randint(1, 10000))]))
            if self.p(full):
                kw["offset"] = one("offset", self.pick([Int(0), Bool(False), Int(self.r.randint(0, 10**12))]))
            if self.p(full):
                kw["granularity"] = one("gran", self.pick([Int(1), Int(3600), Bool(True), Int(self.r.randint(1, 10**12))]))
            if self.p(full):
                kw["totals"] = one("totals", Bool(bool("groupby" in kw and kw["groupby"]["c"]) and self.p(0.7)))
            return query(m, **kw)

        return self.with_scope(cg, body)
