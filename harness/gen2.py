"""Random metrics queries, MQL text, requests, legacy bodies, and ill-formed values."""
from __future__ import annotations

import copy
from typing import Any

from codec import NONE, Bool, Dict, Flt, Int, Kv, List, N, Node, Str, Tup
from gen import ALLCH, ALNUM, LOWER, OPS, TRICKY, UNARY, UNISPACE, UNIWORD, Gen, boolc, cfn, col, cond, dm, dt, entity
from gen import fn, join, one, orderby, query, rel, storage

ARITH = ["plus", "minus", "multiply", "divide"]
MQLOPS = ["EQ", "NEQ", "IN", "NOT_IN", "LIKE", "NOT_LIKE"]
GRANS = [10, 60, 3600, 86400]


def metric(pub: Node = NONE, mri: Node = NONE, mid: Node = NONE) -> Node:
    return N("metric", "", [pub, mri, mid])


def ts(m: Node, agg: Node, params: Node = NONE, filters: Node = NONE, groupby: Node = NONE) -> Node:
    return N("ts", "", [m, agg, params, filters, groupby])


def formula(name: str, ps: Node, aps: Node = NONE, filters: Node = NONE, groupby: Node = NONE) -> Node:
    return N("formula", "", [Str(name), ps, aps, filters, groupby])


class Gen2(Gen):
    # ------------------------------------------------------- metrics objects
    def tag(self) -> str:
        if self.p(0.6):
            return self.pick(["a", "b", "transaction", "status_code", "x.y", "android", "order", "by", "and", "or", "bar"])
        s = self.pick(LOWER + "_") + "".join(self.pick(ALNUM + ".") for _ in range(self.size(4, 30)))
        return s

    esc = 0.0  # how often texts in MQL contain backslashes and newlines

    def plain(self, maxlen: int = 6, empty: bool = True) -> str:
        """Text without backslash and newline."""
        if self.p(self.esc):
            return "".join(self.pick(["\\", "\n", '"', "a", "*", "\\n", "}"]) for _ in range(self.size(maxlen, 60, 1)))
        alpha = [c for c in (TRICKY if self.p(0.6) else ALLCH) if "\\" not in c and "\n" not in c]
        return "".join(self.pick(alpha) for _ in range(self.size(maxlen, 60, 0 if empty else 1)))

    def wild(self) -> str:
        return "".join(self.pick([c for c in ALNUM + "-:/.$@!<>=é中'`;%" if c]) for _ in range(self.size(4, 20, 1))) + "*"

    def mql_cond(self, wide: bool = False) -> Node:
        o = self.pick(MQLOPS)
        lhs = col(self.tag())
        if wide and self.p(0.15):
            return self.pick([
                lambda: cond(lhs, self.pick(OPS), NONE) if self.p(0.3) else cond(lhs, self.pick([x for x in OPS if x not in UNARY]), self.lit()),
                lambda: cond(self.func(1), o, Str(self.text())),
                lambda: cond(lhs, o, self.scalar(1)),
                lambda: cond(lhs, o, col(self.tag())),
                lambda: cond(lhs, o, self.func(1)),
                lambda: cond(col(self.tag() + "[k]"), o, Str("x")),
            ])()
        if o in ("EQ", "NEQ"):
            v = Str(self.plain())
        elif o in ("LIKE", "NOT_LIKE"):
            v = Str(self.wild())
        else:
            v = N(self.pick(["list", "tuple"]), "", [Str(self.plain()) for _ in range(self.size(3, 20, 1))])
        if wide and self.p(0.1):
            v = Str(self.text())
        return cond(lhs, o, v)

    def safe_cond(self, c: Node) -> Node:
        if c["c"][1]["v"] in UNARY:
            return cond(c["c"][0], c["c"][1]["v"])
        return c

    def mql_filter(self, depth: int = 2, wide: bool = False) -> Node:
        if depth <= 0 or self.p(0.55):
            return self.safe_cond(self.mql_cond(wide))
        if self.p(0.2):
            lhs = col(self.tag())
            n = self.size(3, 60, 2)
            cs = [cond(lhs, "EQ", Str(self.plain())) for _ in range(n)]
            if self.p(0.3):
                cs[self.r.randrange(n)] = self.safe_cond(self.mql_cond(wide))
            return boolc("or", cs, self.pick(["", "bcond"]))
        return boolc(self.pick(["and", "or"]), [self.mql_filter(depth - 1, wide) for _ in range(self.size(3, 10, 2))],
                     self.pick(["", "", "bcond"]))

    def filters(self, wide: bool = False) -> Node:
        return NONE if self.p(0.4) else List(*[self.mql_filter(2, wide) for _ in range(self.size(2, 10))])

    def groupby(self, wide: bool = False) -> Node:
        if self.p(0.5):
            return NONE
        cs = [col(self.tag()) for _ in range(self.size(2, 8))]
        if wide and self.p(0.1):
            cs.append(N("aliased", "", [col(self.tag()), Str(self.alias())]))
        return List(*cs)

    def mri(self, wide: bool = False) -> str:
        if self.p(0.5):
            return self.pick(["d:transactions/duration@millisecond", "c:custom/x.y@none", "g:spans/a_b@none"])
        def part(bad: str) -> str:
            al = [c for c in ALNUM + ".-_/:@$ é中" if c not in bad and c != "`"]
            s = "".join(self.pick(al) for _ in range(self.size(4, 15, 1)))
            return s.strip() or "m"
        extra = self.pick(["", "", "(x)", "[", "{a}", '"', ","]) if self.p(0.2) else ""
        if self.p(0.1):
            extra += self.pick([" ", "\t", "  "])
        a = part(":")
        if not a[0].isalpha():
            a = "d" + a
        if self.p(0.06):
            a = self.pick([" ", "\t"]) + a
        return f"{a}:{part('/')}/{part('@,')}{extra.replace(',', '')}@{part('')}{extra}"

    def public(self) -> str:
        return ".".join("".join(self.pick(LOWER + "_") for _ in range(self.size(5, 20, 1))) for _ in range(self.size(3, 6, 1)))

    def metric(self, wide: bool = False) -> Node:
        if wide and self.p(0.2):
            return metric(Str(self.public()), Str(self.mri()), NONE if self.p(0.5) else Int(self.r.randint(0, 99)))
        return metric(NONE, Str(self.mri())) if self.p(0.6) else metric(Str(self.public()))

    def agg(self) -> str:
        return self.pick(["sum", "max", "quantiles", "topK", "uniq", "p95", "count_if", "a1"])

    def num(self, neg: bool = True) -> Node:
        m = self.r.random()
        if m < 0.4:
            n = self.r.randint(0, 1000)
            return Int(-n if neg and self.p(0.2) else n)
        if m < 0.5:
            return Int(self.pick([0, 1, 10**9, 10**14, 123456789012345]))
        if m < 0.6:
            return Flt(self.pick([0.0, 0.5, 1e16, 1e-7, 1.5e20, 1e22, 123456789.25, 1e-5, 0.0001, 99999999999999.0]))
        x = float("%.*g" % (self.r.randint(1, 15), self.r.random() * 10 ** self.r.randint(-9, 15)))
        return Flt(-x if neg and self.p(0.2) else x)

    def agg_params(self, wide: bool = False) -> Node:
        if self.p(0.6):
            return NONE
        ps = []
        for _ in range(self.size(2, 6)):
            if wide and self.p(0.15):
                ps.append(self.lit())
            else:
                ps.append(Str(self.plain()) if self.p(0.4) else self.num(neg=False))
        return List(*ps)

    def ts(self, wide: bool = False, gb: Node | None = None) -> Node:
        return ts(self.metric(wide), Str(self.agg()), self.agg_params(wide), self.filters(wide),
                  self.groupby(wide) if gb is None else gb)

    def formula(self, depth: int = 2, wide: bool = False, gb: Node | None = None) -> Node:
        if gb is None:
            gb = self.groupby(wide)

        def mygb() -> Node:
            return gb if self.p(0.7) else NONE

        def operand(d: int) -> Node:
            m = self.r.random()
            if m < 0.5 or (d <= 0 and m < 0.8):
                return self.ts(wide, mygb())
            if d > 0 and m < 0.8:
                return self.formula(d - 1, wide, gb)
            if wide and self.p(0.1):
                return self.pick([Bool(True), Flt(2.5)])
            return self.num()

        m = self.r.random()
        if m < 0.6:
            ps = [operand(depth) for _ in range(2 if not wide else self.size(3, 5, 1))]
            f = formula(self.pick(ARITH), List(*ps), NONE, self.filters(wide) if self.p(0.4) else NONE, mygb() if self.p(0.4) else NONE)
        elif m < 0.72:
            x = self.ts(wide, mygb()) if self.p(0.6) or depth <= 0 else self.formula(depth - 1, wide, gb)
            return formula("negate", List(x), NONE, self.filters() if self.p(0.5) else NONE, mygb() if self.p(0.3) else NONE)
        else:
            ps = [operand(depth) for _ in range(self.size(3, 6, 1))]
            f = formula(self.pick(["abs", "topK", "apdex", "f1", "failure_rate"]), List(*ps), self.agg_params(wide),
                        self.filters(wide) if self.p(0.4) else NONE, mygb() if self.p(0.4) else NONE)
        if not self.has_ts(f):
            f["c"][1]["c"][0] = self.ts(wide, mygb())
        return f

    def has_ts(self, f: Node) -> bool:
        return any(p["k"] == "ts" or (p["k"] == "formula" and self.has_ts(p)) for p in f["c"][1]["c"])

    def mexpr(self, wide: bool = False) -> Node:
        return self.ts(wide) if self.p(0.5) else self.formula(self.size(2, 5), wide)

    def rollup(self, gran: bool = True) -> Node:
        g = self.pick(GRANS) if gran or self.p(0.7) else None
        if self.p(0.6):
            iv: Node = Int(self.pick([max(g or 10, 10), 86400, 86400 * 7, max(g or 10, 10) + 1, 10**12]))
            tot = self.pick([NONE, Bool(True), Bool(False)])
            ob = NONE
        else:
            iv, tot, ob = NONE, Bool(self.p(0.7)), self.pick([NONE, N("dir", "ASC"), N("dir", "DESC")])
        return N("rollup", "", [iv, tot, ob, NONE if g is None else Int(g)])

    def scope(self) -> Node:
        ids = lambda: List(*[self.pick([Int(1), Int(2), Int(self.r.randint(0, 10**12)), Bool(True)]) for _ in range(self.size(3, 20))])  # noqa: E731
        return N("scope", "", [ids(), ids(), NONE if self.p(0.4) else Str(self.pick(["transactions", "custom", "", self.text()]))])

    def jsonval(self, depth: int = 2) -> Node:
        m = self.r.randrange(8)
        if m < 3:
            return Str(self.text())
        if m < 6:
            return Int(self.r.randint(-10**12, 10**12))
        if m == 6 or depth <= 0:
            return self.pick([NONE, Bool(True), Bool(False), Flt(1.5)])
        return self.pick([lambda: List(*[self.jsonval(depth - 1) for _ in range(self.size(2, 5))]),
                          lambda: Dict({self.text(4): self.jsonval(depth - 1) for _ in range(self.size(2, 5))})])()

    def mappings(self) -> Node:
        return Dict({self.pick(["d:x/y@none", "transaction", "status", self.text(5)]): self.pick([Int(self.r.randint(0, 10**9)), Str(self.text())])
                     for _ in range(self.size(3, 20))})

    def mq(self, wide: bool = False, expr: Node | None = None) -> Node:
        return N("mq", "", [
            expr if expr is not None else self.mexpr(wide), self.dtv(), self.dtv(), self.rollup(), self.scope(),
            NONE if self.p(0.5) else one("limit", Int(self.r.randint(1, 10000))),
            NONE if self.p(0.5) else one("offset", Int(self.pick([0, 5, 10**10]))),
            NONE if self.p(0.5) else one("extrap", Bool(self.p(0.5))),
            self.mappings()])

    # -------------------------------------------------------------- MQL text
    gbtext = " by a"
    clean = False  # keep to grammatical MQL

    def ws(self) -> str:
        if self.clean:
            return self.pick(["", "", "", "", " ", " ", "  ", "\n", "\t"])
        return self.pick(["", "", "", " ", "  ", "\n", "\t", " \n "] + UNISPACE[:3]) if self.p(0.5) else ""

    def ws1(self) -> str:
        return self.pick([" ", "  ", "\n", "\t "])

    def mql_value(self) -> str:
        m = self.r.randrange(10)
        if self.clean:
            if m == 5:
                return self.pick(["foo*", '"foo*"', '"a*b"', '"*"', '"a b*"'])
            if m == 6:
                m = 0
            if 3 <= m < 5:
                return self.pick(["foo", "a.b", "200", "x-y", "é中", "a:b", "it's", "tags", "-", "$v", "a=b", "!x", "ANDy", "by"])
        if m < 3:
            return '"' + self.plain().replace('"', '\\"') + '"'
        if m < 5:
            return self.pick(["foo", "a.b", "200", "x-y", "/api/*", "é中", "a:b", "it's", "tags", "-", "$v", "a=b", "!x"])
        if m == 5:
            return self.pick(["foo*", '"foo*"', '"a b*"', "*", '"*"', "a*b", '"a*b"', "foo**"])
        if m == 6:
            return '"' + self.text() + '"'
        if m == 7:
            return self.wild()
        items = [self.pick(['"a"', "b", '"x, y"', '"q\\"r"', "c.d", '"]"', '""', "-1"]) for _ in range(self.size(3, 8, 1))]
        return "[" + self.ws() + (self.ws() + "," + self.ws()).join(items) + self.ws() + "]"

    def mql_tag(self) -> str:
        return self.pick(["$var", "1a", ".x", "a..b"]) if not self.clean and self.p(0.05) else self.tag()

    def t_cond(self) -> str:
        return ("!" if self.p(0.25) else "") + self.mql_tag() + self.ws() + ":" + self.ws() + self.mql_value()

    def t_filter(self, depth: int) -> str:
        terms = []
        for _ in range(self.size(2, 6, 1)):
            factors = []
            for _ in range(self.size(2, 6, 1)):
                if depth > 0 and self.p(0.3):
                    factors.append("(" + self.ws() + self.t_filter(depth - 1) + self.ws() + ")")
                else:
                    factors.append(self.t_cond())
            s = factors[0]
            for f in factors[1:]:
                j = self.pick([" AND ", " and ", ", ", ",", " ", "\nAND "]) if self.clean else self.pick([" AND ", " and ", ", ", ",", " ", self.ws() + "AND" + self.ws1(), "AND", self.ws1()])
                s += j + f
            terms.append(s)
        s = terms[0]
        for t in terms[1:]:
            s += self.pick([" OR ", " or ", " OR\n"] if self.clean else [" OR ", " or ", " OR", "OR ", " OR\n"]) + t
        return s

    def t_braces(self) -> str:
        if self.p(0.5):
            return ""
        return "{" + self.ws() + (self.t_filter(2) if self.clean or self.p(0.93) else "") + self.ws() + "}" if self.p(0.95) else "{}"

    def t_group(self) -> str:
        if self.p(0.65):
            return ""
        if self.clean and self.p(0.8):
            return self.gbtext
        if self.p(0.4):
            return self.pick([" ", self.ws1(), "" if not self.clean else " "]) + "by" + self.pick([" ", self.ws1(), ""]) + self.mql_tag()
        return self.ws1() + "by" + self.ws() + "(" + self.ws() + (self.ws() + "," + self.ws()).join(
            self.mql_tag() for _ in range(self.size(3, 6, 1))) + self.ws() + ")"

    def t_metric(self) -> str:
        m = self.r.randrange(10)
        if m < 4:
            return self.pick(["d:transactions/duration@millisecond", "c:custom/x.y@none", "g:s/a b@none", "a:b/c@d e"])
        if m < 5:
            return self.mri()
        if m < 6:
            return "`" + self.mri() + "`"
        if m < 8:
            return self.pick(["transaction.duration", "foo", "a_b.c", self.public()])
        if m < 9 or self.clean:
            return "`" + self.public() + "`"
        return self.pick(["foo.", ".foo", "FOO", "foo1", "d:x@y", "`foo", "d:a/b@c`", "$m", "foo.Bar"])

    def t_number(self) -> str:
        return self.pick(["1", "0", "10", "3.5", "0.0001", "0.00001", "007", "1.50", "100000000000000000", "123456789012345", "00.10", "10.0",
                          str(self.r.randint(0, 10**6)), "%.3f" % self.r.uniform(0, 100)])

    def t_param(self) -> str:
        return self.pick([self.t_number(), self.t_number(), '"x y"', "abc", '"a\\"b"', "-5", "a.b"])

    def t_call(self, depth: int) -> str:
        name = self.pick(["sum", "max", "quantiles", "f", "topK", "p95", "by", "AND", "a1_b", "avg", "f2" if self.clean else "7up"])
        params = ""
        if self.p(0.3):
            params = "(" + self.ws() + (self.ws() + "," + self.ws()).join(
                self.t_param() for _ in range(self.size(3, 6))) + self.ws() + ")"
        if depth <= 0 or self.p(0.6):
            mt, br, gb = self.t_metric(), self.t_braces(), self.t_group()
            if self.clean and gb and not br and "@" in mt and mt[0] != "`":
                br = "{}"
            arg = mt + br + gb
        else:
            parts = [self.t_expr(depth - 1) for _ in range(self.size(2, 5, 1))]
            if self.clean and parts[0][:1] in "`abcdefghijklmnopqrstuvwxyz_" and "(" not in parts[0]:
                parts[0] = self.t_call(0)
            arg = (self.ws() + "," + self.ws()).join(parts)
        return name + params + "(" + self.ws() + arg + self.ws() + ")"

    def t_unary(self, depth: int, num: bool = True) -> str:
        m = self.r.random()
        if not num and self.clean:
            m = max(m, 0.2)
        neg = "-" if self.p(0.12) else ""
        if m < 0.15:
            return neg + self.t_number()
        if m < 0.17 and not self.clean:
            return neg + '"lit"'
        if m < 0.6 or depth <= 0:
            t = self.t_call(depth)
        elif m < (0.65 if self.clean else 0.75):
            t = self.t_metric()
        else:
            t = "(" + self.ws() + self.t_expr(depth - 1) + self.ws() + ")"
        return neg + t + self.t_braces() + self.t_group()

    def t_expr(self, depth: int = 2) -> str:
        s = self.t_unary(depth, self.p(0.1))
        for _ in range(self.r.choice([0, 0, 0, 1, 1, 2, 3])):
            s += self.pick([" ", self.ws()]) + self.pick("+-*/") + self.pick([" ", self.ws()]) + self.t_unary(depth)
        return s

    MQLCH = list("abcX_.019(){}[]\"`,:;*!$@/\\+- \n'") + ["AND", "OR", "by", " by ", "and ", "é"]

    def mql_text(self, clean: float = 0.75) -> str:
        self.clean = self.p(clean)
        self.gbtext = self.ws1() + "by" + self.pick([" " + self.tag(), " (" + self.tag() + ", " + self.tag() + ")"])
        try:
            if self.clean:
                return self.ws() + self.t_expr(self.size(2, 4)) + self.ws()
            return self.wild_text()
        finally:
            self.clean = False

    def wild_text(self) -> str:
        if self.p(0.02):
            return "".join(self.pick(self.MQLCH) for _ in range(self.size(8, 30)))
        s = self.ws() + self.t_expr(self.size(2, 4)) + self.ws()
        if self.p(0.25):
            for _ in range(self.r.randint(1, 2)):
                i = self.r.randint(0, len(s))
                m = self.r.randrange(4)
                if m == 0:
                    s = s[:i] + self.pick(self.MQLCH) + s[i:]
                elif m == 1:
                    s = s[:i] + s[i + 1:]
                elif m == 2:
                    s = s[:i] + self.pick(self.MQLCH) + s[i + 1:]
                else:
                    s = s[:i]
        return s

    # ---------------------------------------------------------- junk values
    def junk(self) -> Node:
        """A value of any kind."""
        m = self.r.randrange(14)
        if m < 4:
            return self.lit()
        if m == 4:
            return N("obj")
        if m == 5:
            return N("badbytes", "x")
        if m == 6:
            return Dict({self.text(3): self.lit() for _ in range(self.size(2, 5))})
        if m == 7:
            return N("set", "", [Int(self.r.randint(0, 3))])
        if m == 8:
            return self.pick([op_ for op_ in (N("op", self.pick(OPS)), N("bop", "AND"), N("bop", "OR"), N("dir", "ASC"))])
        if m == 9:
            return N(self.pick(["list", "tuple"]), "", [self.junk_leaf() for _ in range(self.size(2, 5))])
        return self.any_expr()

    def junk_leaf(self) -> Node:
        return self.pick([self.lit, lambda: N("obj"), self.any_expr, lambda: List(self.lit()), lambda: Tup(), lambda: Dict({})])()

    def any_expr(self) -> Node:
        return self.pick([
            lambda: self.colgen(),
            lambda: N("aliased", "", [self.colgen(), Str(self.alias())]),
            lambda: self.func(1),
            lambda: N("ident", "", [Str(self.ident_name())]),
            lambda: N("lambda", "", [List(Str("x")), self.func(0)]),
            lambda: entity(self.entity_name(), Str("e") if self.p(0.5) else NONE),
            lambda: storage(self.entity_name()),
            lambda: self.join_match()[0],
            lambda: self.condition(1),
            lambda: self.boolean(1),
            lambda: orderby(self.expr(1)),
            lambda: N("limitby", "", [List(self.colgen()), Int(3)]),
            lambda: one("limit", Int(3)),
            lambda: one("offset", Int(3)),
            lambda: one("gran", Int(3)),
            lambda: one("totals", Bool(True)),
            lambda: one("extrap", Bool(True)),
            lambda: metric(Str("x")),
            lambda: self.ts(),
            lambda: query(entity("events"), select=List(col("a"))),
            lambda: self.rollup(),
            lambda: self.scope(),
        ])()

    # ------------------------------------------------------------- requests
    def ident_text(self) -> str:
        if self.p(0.7):
            return self.pick(["events", "app", "a.b", "x-y", "discover", "A_1:[*]/+"])
        s = "".join(self.pick(ALNUM + ".+*/:-[]") for _ in range(self.size(6, 30, 1)))
        if self.p(0.3):
            i = self.r.randint(0, len(s))
            s = s[:i] + self.pick(ALLCH) + s[i:]
        return s

    def flags(self) -> Node:
        return N("flags", "", [self.pick([NONE, Bool(True), Bool(False)]) for _ in range(6)])

    def dq(self) -> Node:
        d = {}
        for _ in range(self.size(3, 10)):
            vals = [self.pick([Int(self.r.randint(-5, 10**12)), Str(self.text())]) for _ in range(self.size(3, 20))]
            d[self.pick(["id", "status", self.text(4)])] = List(*vals)
        return N("dq", "", [Str(self.entity_name()), Dict(d)])

    def small_query(self) -> Node:
        return self.query(1, full=0.2)

    def any_query(self) -> Node:
        m = self.r.randrange(10)
        if m < 4:
            return self.small_query()
        if m < 7:
            return self.mq(wide=self.p(0.3), expr=Str(self.mql_text()) if self.p(0.25) else None)
        if m < 9:
            return self.dq()
        return self.pick([query(entity("events")), N("mq", "", [NONE] * 9), N("obj"), NONE])

    def request(self) -> Node:
        c = [Str(self.ident_text()), Str(self.ident_text()), self.any_query(), self.flags() if self.p(0.9) else NONE,
             Str("<unknown>") if self.p(0.4) else Str(self.text() or "x"),
             Dict({self.pick(["org", "referrer", self.text(4)]): self.jsonval() for _ in range(self.size(3, 8))})]
        if self.p(0.2):
            i = self.pick([0, 1, 4, 5])
            c[i] = self.pick([NONE, Str(""), Int(3), Int(0), Str("a b"), Str("x\n"), N("obj"), List(), Dict({}), Bool(True)])
        if c[3]["k"] == "flags" and self.p(0.08):
            c[3]["c"][self.r.randrange(6)] = self.pick([Int(1), Int(0), Str("True"), Str(""), List()])
        return N("request", "", c)

    # --------------------------------------------------------------- legacy
    def datestr(self) -> str:
        base = "%04d-%02d-%02dT%02d:%02d:%02d" % (self.r.randint(1990, 2030), self.r.randint(1, 12), self.r.randint(1, 28),
                                                  self.r.randint(0, 23), self.r.randint(0, 59), self.r.randint(0, 59))
        tail = self.pick(["", "", ".123456", ".5", ".000001", "+00:00", "+05:30", "-0800", "+0100", "Z", "-03:30", "+23:59"])
        return base + tail

    def notdate(self) -> str:
        return self.pick(["2020-01-01", "2021-13-01T00:00:00", "2021-02-30T10:00:00", "2020-01-01T00:00:00.1234567",
                          "2020-01-01T25:00:00", "2020-01-01T10:00:00.12+00:00", "2020-01-01 10:00:00", "x2020-01-01T10:00:00",
                          "2020-01-01T10:00:00x", "2020-01-01T10:00:00+", "a+b:c", "10:30+1"])

    def leg_lit(self, depth: int = 1) -> Node:
        m = self.r.randrange(10)
        if m < 2:
            return Str(self.datestr())
        if m < 3:
            return Str(self.notdate())
        if m < 5:
            return Str(self.text())
        if m < 7:
            return self.intv()
        if m < 8:
            return self.pick([NONE, Bool(True), self.floatv()])
        if depth <= 0:
            return Int(1)
        return N(self.pick(["list", "tuple"]), "", [self.leg_lit(depth - 1) for _ in range(self.size(3, 10))])

    def leg_col(self) -> str:
        return self.pick(["a", "b", "project_id", "tags[x]", "tags[a.b]", "release", "timestamp", "contexts[k]", "message", "event.type"])

    def leg_exp(self, depth: int = 2, fnonly: bool = False) -> Node:
        m = self.r.random()
        if not fnonly and (depth <= 0 or m < 0.4):
            return Str(self.leg_col())
        if not fnonly and m < 0.48:
            return Str("'" + self.pick(["x", "it's", "", "2020-01-01T00:00:00", self.text()]) + "'")
        if not fnonly and m < 0.53:
            return self.pick([Int(5), Flt(0.5), NONE, Tup(Str("a"), Int(1))])
        if not fnonly and m < 0.60:
            return List(self.leg_exp(depth - 1), Str(self.legop()), self.leg_lit())
        name = self.pick(["count", "uniq", "ifNull", "toString", "topK(3)", "count()", "f(1)", "quantile(0.5)", "now()", "ff"])
        args = self.pick([
            lambda: List(*[self.leg_exp(depth - 1) for _ in range(self.size(3, 6))]),
            lambda: List(*[self.leg_exp(depth - 1) for _ in range(self.size(3, 6))]),
            lambda: Str(self.leg_col()), lambda: NONE, lambda: Str(""), lambda: List(), lambda: Int(5), lambda: Str("'q'")])()
        c = [Str(name), args]
        if self.p(0.6):
            if self.good:
                c.append(self.pick([NONE, Str("al"), Str("`al`"), Str(self.alias())]))
            else:
                c.append(self.pick([NONE, Str("al"), Str("`al`"), Str(self.alias()), Str(""), Str("`")]) if self.p(0.9) else Str("bad alias"))
        return List(*c)

    def legop(self) -> str:
        o = self.pick([">", "<", ">=", "<=", "=", "!=", "IN", "NOT IN", "LIKE", "NOT LIKE", "IS NULL", "IS NOT NULL"])
        return o if self.p(0.7) else o.lower()

    def leg_cond(self) -> Node:
        lhs = self.leg_exp(2)
        if self.good and not (lhs["k"] == "str" and lhs["v"][:1] != "'" or lhs["k"] == "list" and lhs["c"][0]["k"] == "str"
                              and lhs["c"][0]["v"].rstrip("()0123456789.").isalpha() and lhs["c"][0]["v"] not in ("a", "b", "release", "message")):
            lhs = Str(self.leg_col()) if self.p(0.5) else self.leg_exp(2, True)
        return N(self.pick(["list", "list", "tuple"]), "", [lhs, Str(self.legop()), self.leg_lit(2)])

    def leg_conds(self) -> Node:
        out = []
        for _ in range(self.size(3, 20)):
            if self.p(0.35):
                out.append(List(*[self.leg_cond() for _ in range(self.size(3, 15))]))
            else:
                out.append(self.leg_cond())
        return N(self.pick(["list", "list", "tuple"]), "", out)

    good = False  # keep to convertible bodies

    def leg_body(self) -> Node:
        self.good = self.p(0.75)
        b = self.leg_body_any()
        if self.good:
            d = {x["v"]: x["c"][0] for x in b["c"]}
            if not d.get("aggregations", NONE)["c"] and not d.get("selected_columns", NONE)["c"] and not d.get("groupby", NONE)["c"]:
                d["selected_columns"] = List(Str(self.leg_col()))
            for k, bad in (("sample", ("0", "1000")), ("limit", ("0", "10001")), ("granularity", ("0",)), ("offset", ("-1",))):
                if k in d and d[k]["v"] in bad:
                    del d[k]
            if "limitby" in d and d["limitby"]["c"] and d["limitby"]["c"][0] != Int(5) and d["limitby"]["c"][0] != Int(100):
                del d["limitby"]
            for k in ("from_date", "to_date"):
                if k in d:
                    d[k] = Str(self.datestr())
            b = Dict(d)
        self.good = False
        return b

    def leg_body_any(self) -> Node:
        b: dict[str, Node] = {}
        wrap = lambda xs: N("list", "", xs)  # noqa: E731
        n0 = 1 if self.good else 0
        totuple = lambda x: Tup(*x["c"]) if x["k"] == "list" and self.p(0.15) else x  # noqa: E731
        if self.p(0.6):
            b["aggregations"] = wrap([totuple(self.leg_exp(2, True)) for _ in range(self.size(3, 8, n0))])
        if self.p(0.8) or "aggregations" not in b:
            b["selected_columns"] = wrap([totuple(self.pick([lambda: Str(self.leg_col()), lambda: self.leg_exp(2, True)])())
                                          for _ in range(self.size(3, 10, n0))])
        if self.p(0.5):
            b["groupby"] = self.pick([lambda: Str(self.leg_col()), lambda: wrap([totuple(self.pick([Str(self.leg_col()), self.leg_exp(1, True)]))
                                                                                 for _ in range(self.size(3, 6))]),
                                      lambda: wrap([]), lambda: Str("")])()
        if self.p(0.2):
            b["arrayjoin"] = self.pick([Str(self.leg_col()), Str(""), NONE, Str("a")])
        if self.p(0.4):
            b["organization"] = self.pick([Int(1), List(Int(1), Int(2)), Tup(Int(3)), Int(0), NONE, List()])
        if self.p(0.6):
            b["project"] = self.pick([Int(1), List(Int(1), Int(2)), Tup(Int(3)), Int(0), NONE, Bool(True)])
        if self.p(0.5):
            b["from_date"] = Str(self.datestr()) if self.p(0.9) else self.pick([NONE, Str(""), Str(self.notdate())])
        if self.p(0.5):
            b["to_date"] = Str(self.datestr()) if self.p(0.9) else self.pick([NONE, Str(""), Str(self.notdate())])
        if self.p(0.6):
            b["conditions"] = self.leg_conds()
        if self.p(0.3):
            b["having"] = self.leg_conds()
        if self.p(0.5):
            o = lambda: self.pick([lambda: Str(self.pick(["", "-", "--"]) + self.leg_col()), lambda: self._neg(self.leg_exp(1, True))])()  # noqa: E731
            b["orderby"] = self.pick([o, lambda: wrap([o() for _ in range(self.size(3, 6))]), lambda: wrap([]), lambda: Str("")])()
            if b["orderby"]["k"] == "list" and b["orderby"]["c"] and b["orderby"]["c"][0]["k"] == "str" and len(b["orderby"]["c"]) > 1 \
                    and b["orderby"]["c"][1]["k"] != "str":
                b["orderby"] = wrap([b["orderby"]])
        if self.p(0.25):
            b["limitby"] = self.pick([List(Int(5), Str(self.leg_col())), Tup(Int(100), Str("a")), List(Int(0), Str("a")), NONE, List(Str("7"), Str("b"))])
        for k, vs in (("limit", [Int(10), Int(10000), Int(0), Int(10001), NONE]), ("offset", [Int(0), Int(7), Int(-1), NONE]),
                      ("granularity", [Int(60), Int(0), NONE]), ("totals", [Bool(True), Bool(False), NONE])):
            if self.p(0.4):
                b[k] = self.pick(vs[:2]) if self.p(0.8) else self.pick(vs)
        if self.p(0.3):
            b["sample"] = self.pick([Flt(0.1), Int(1), Flt(1.0), NONE, Int(0), Int(1000)])
        for k in ("consistent", "turbo", "debug", "dry_run"):
            if self.p(0.3):
                b[k] = self.pick([Bool(True), Bool(False), NONE])
        if self.p(0.3):
            b["dataset"] = self.pick([Str("events"), Str("ds"), NONE, Str("")])
        if self.p(0.3):
            b["app_id"] = self.pick([Str("app"), NONE, Str("")])
        if self.p(0.3):
            b["tenant_ids"] = self.pick([Dict({"org": Int(1)}), Dict({}), NONE, Dict({"a": Str("b"), "c": Int(2)})])
        if self.p(0.2):
            b["unrelated"] = self.jsonval()
        return Dict(b)

    def _neg(self, f: Node) -> Node:
        if self.p(0.5):
            f["c"][0] = Str(self.pick(["-", "-", "--"]) + f["c"][0]["v"])
        return f

    def leg_entity(self) -> str:
        return self.pick(["events", "transactions", "discover", "sessions", "outcomes", "errors", "spans", "replays", "other_entity",
                          "discover_transactions", "search_issues", "outcomes_raw", "discover_events"])
