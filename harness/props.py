"""The inputs explored for each property: every profile makes one session of recorded calls."""
from __future__ import annotations

import copy
import json
from typing import Any, Callable

import codec
from codec import NONE, Bool, Dict, Flt, Int, Kv, List, N, Node, Ref, Session, Str, Tup, run_call
from gen import (ALLCH, ALNUM, LOWER, OPS, QF, TRICKY, UNARY, UNIOTHER, UNISPACE, UNIWORD, KNOWN, ascii_upper, boolc, cfn, col, cond, dm, dt,
                 entity, fn, join, one, op, orderby, query, rel, storage)
from gen2 import ARITH, GRANS, Gen2, formula, metric, ts

Events = list


def clone(n: Node) -> Node:
    return json.loads(json.dumps(n))


def paths(n: Node, want: Callable[[Node], bool], pre: tuple = ()) -> list[tuple]:
    out = [pre] if want(n) else []
    for i, x in enumerate(n["c"]):
        out += paths(x, want, pre + (i,))
    return out


def at(n: Node, path: tuple) -> Node:
    for i in path:
        n = n["c"][i]
    return n


def put(n: Node, path: tuple, x: Node) -> Node:
    if not path:
        return x
    n = clone(n)
    at(n, path[:-1])["c"][path[-1]] = x
    return n


# ------------------------------------------------------------------- C01, C02
def c01(g: Gen2) -> Events:
    ev = []
    for _ in range(6):
        q = g.query(g.pick([0, 1, 1, 2, 3]), full=g.pick([0.15, 0.35, 0.7, 1.0]))
        ev.append(run_call(g.pick(["serialize", "serialize", "str"]), [q]))
    return ev


def lit_query(g: Gen2, ls: list[Node]) -> Node:
    """A query with the given literals in various positions."""
    def place(x: Node) -> tuple[str, Node]:
        m = g.r.randrange(13)
        c = col(g.pick(["a", "b", "tags[x]"]))
        if m < 3:
            return "where", cond(c, g.pick([o for o in OPS if o not in UNARY]), x)
        if m == 3:
            return "having", cond(c, "EQ", x)
        if m == 4:
            return "where", boolc(g.pick(["and", "or"]), [cond(c, "EQ", x), cond(col("z"), "NEQ", x)], g.pick(["", "bcond"]))
        if m == 5:
            return "select", fn("ff", g.seq([x] if g.p(0.5) else [c, x]))
        if m == 6 and x["k"] not in ("list", "tuple"):
            return "select", cfn("ff", g.seq([x]), g.seq([c, x]))
        if m == 7:
            return "where", cond(c, "IN", g.seq([x, g.lit()]))
        if m == 8:
            return "groupby", fn("gg", g.seq([g.seq([x, g.seq([x])])]))
        if m == 9:
            return "orderby", orderby(fn("hh", g.seq([x])))
        if m == 10:
            return "where", cond(fn("kk", List(fn("jj", List(x)))), "EQ", x)
        if m == 11:
            return "select", fn("arrayMap", List(N("lambda", "", [List(Str("x")), fn("ii", List(N("ident", "", [Str("x")]), x))]), c))
        return "where", cond(c, "EQ", fn("ll", List(x)))
    kw: dict[str, list] = {"select": [col("a")]}
    for x in ls:
        k, e = place(x)
        kw.setdefault(k, []).append(e)
    q = query(g.pick([entity("events"), storage("events")]), **{k: List(*v) for k, v in kw.items()})
    if g.p(0.15):
        q = query(q, select=List(col("a")), where=List(cond(col("a"), "EQ", g.pick(ls))))
    return q


def c02(g: Gen2) -> Events:
    ev = []
    for _ in range(8):
        ls = [g.pick([g.lit, g.lit, g.dtv, lambda: Str(g.text(12)), lambda: N("bytes", g.text(12)), lambda: g.scalar(3), g.floatv, g.intv])()
              for _ in range(g.r.randint(1, 4))]
        ev.append(run_call(g.pick(["serialize", "serialize", "print"]), [lit_query(g, ls)]))
    return ev


# ------------------------------------------------------------------------ C03
def c03(g: Gen2) -> Events:
    ev = []
    for _ in range(5):
        m = g.r.random()
        if m < 0.7:
            mt, cg = g.match(1, g.pick(["e", "s", "j", "eq"]))

            def body() -> Node:
                w = [g.orish() if g.p(0.7) else g.boolean() for _ in range(g.size(2, 6, 1))]
                kw: dict[str, Node] = {"select": List(g.colgen()), "where": List(*w)}
                if g.p(0.3):
                    kw["having"] = List(*[g.orish() for _ in range(g.size(2, 3, 1))])
                return query(mt, **kw)
            q = g.with_scope(cg, body)
            if g.p(0.15) and mt["k"] in ("entity", "storage"):
                names = g.exposed(q)
                if names:
                    q = query(q, select=List(col(names[0])), where=List(boolc("or", [cond(col(names[0]), "EQ", g.lit()) for _ in range(2)])))
            ev.append(run_call("serialize", [q]))
        else:
            x = g.ts() if g.p(0.6) else g.formula(1)
            fs = []
            for _ in range(g.size(2, 4, 1)):
                lhs = col(g.tag())
                n = g.size(3, 60, 2)
                cs = [cond(lhs, "EQ", Str(g.plain())) for _ in range(n)]
                k = g.r.random()
                if k < 0.2:
                    cs[g.r.randrange(n)] = g.mql_cond()
                elif k < 0.3:
                    cs[g.r.randrange(n)] = boolc("or", [cond(lhs, "EQ", Str("p")), cond(lhs, "EQ", Str("q"))])
                fs.append(boolc(g.pick(["or", "or", "or", "and"]), cs, g.pick(["", "bcond"])))
            x["c"][3] = List(*fs)
            ev.append(run_call(g.pick(["serialize", "serialize", "print"]), [g.mq(expr=x)]))
    return ev


# ------------------------------------------------------------------------ C04
QSETVAL: dict[str, Callable[[Gen2], Node]] = {
    "match": lambda g: g.pick([entity("events"), storage("errors"), g.join_match()[0], query(entity("t"), select=List(col("a")))]),
    "select": lambda g: List(*[g.selectable(1) for _ in range(g.size(2, 4, 1))]),
    "groupby": lambda g: List(*[g.selectable(1) for _ in range(g.size(2, 4))]),
    "array_join": lambda g: List(*[g.colgen() for _ in range(g.size(2, 4, 1))]),
    "where": lambda g: List(*[g.orish() if g.p(0.5) else g.boolean(1) for _ in range(g.size(2, 4))]),
    "having": lambda g: List(*[g.boolean(1) for _ in range(g.size(2, 4))]),
    "orderby": lambda g: List(*[orderby(g.expr(1), g.pick(["ASC", "DESC"])) for _ in range(g.size(2, 4))]),
    "limitby": lambda g: N("limitby", "", [List(g.colgen()), Int(g.r.randint(1, 100))]),
    "limit": lambda g: Int(g.r.randint(1, 10000)),
    "offset": lambda g: Int(g.r.randint(0, 10000)),
    "granularity": lambda g: Int(g.r.randint(1, 10000)),
    "totals": lambda g: Bool(g.p(0.5)),
}
MQSETVAL: dict[str, Callable[[Gen2], Node]] = {
    "query": lambda g: g.pick([g.ts(), g.formula(1), Str(g.mql_text(0.9))]),
    "start": lambda g: g.dtv(), "end": lambda g: g.dtv(),
    "rollup": lambda g: g.rollup(), "scope": lambda g: g.scope(),
    "limit": lambda g: Int(g.r.randint(1, 10000)), "offset": lambda g: Int(g.r.randint(0, 100)),
    "extrapolate": lambda g: Bool(g.p(0.5)), "indexer_mappings": lambda g: g.mappings(),
}
TSSETVAL: dict[str, Callable[[Gen2], Node]] = {
    "metric": lambda g: g.metric(), "filters": lambda g: g.filters(), "groupby": lambda g: g.groupby(),
    "aggregate": lambda g: Str(g.agg()),
}
FSETVAL: dict[str, Callable[[Gen2], Node]] = {
    "parameters": lambda g: List(*[g.ts(), g.num()]), "filters": lambda g: g.filters(), "groupby": lambda g: g.groupby(),
}
MSETVAL: dict[str, Callable[[Gen2], Node]] = {
    "public_name": lambda g: Str(g.public()), "mri": lambda g: Str(g.mri()), "id": lambda g: Int(g.r.randint(0, 999)),
}
SETTERS = {"query": QSETVAL, "mq": MQSETVAL, "ts": TSSETVAL, "formula": FSETVAL, "metric": MSETVAL,
           "scope": {"use_case_id": lambda g: Str(g.text())}}


def set_args(g: Gen2, h: Node, k: str, f: str, x: Node) -> list[Node]:
    a = [h, Str(f), x]
    if k == "ts" and f == "aggregate":
        a.append(g.agg_params())
    return a


def start_objects(g: Gen2, s: Session) -> list[tuple[int, str]]:
    """Some objects, sharing lists and parts."""
    objs: list[tuple[int, str]] = []
    wl = s.input(List(*[g.orish() if g.p(0.5) else g.boolean(1) for _ in range(g.size(4, 12, 1))]))
    sl = s.input(List(g.colgen(), g.func(1)))
    en = s.call("new", [entity("events")], keep=True)
    if en:
        q = s.call("new", [query(Ref(en), **({"select": Ref(sl)} if sl else {}), **({"where": Ref(wl)} if wl else {}))], keep=True)
        if q:
            objs.append((q, "query"))
            if g.p(0.5):
                q2 = s.call("new", [query(Ref(en), select=List(col("a")), **({"where": Ref(wl), "having": Ref(wl)} if wl else {}))], keep=True)
                if q2:
                    objs.append((q2, "query"))
            if sl and g.p(0.4):
                q3 = s.call("new", [query(Ref(q), select=List(fn("count", List())))], keep=True)
                if q3:
                    objs.append((q3, "query"))
    if g.p(0.7):
        fs = [boolc("or", [cond(col("a"), "EQ", Str("1")), cond(col("a"), "EQ", Str("2"))])] + [g.mql_filter(1) for _ in range(g.size(3, 9))]
        g.r.shuffle(fs)
        fl = s.input(List(*fs))
        m = s.call("new", [g.metric()], keep=True)
        if m and fl:
            objs.append((m, "metric"))
            gl = List(*[g.pick([col("h"), col("g"), col("a")]) for _ in range(g.size(3, 9))]) if g.p(0.4) else NONE
            ap = List(*[g.pick([Int(3), Int(1), Str("x")]) for _ in range(g.size(3, 9))]) if g.p(0.4) else NONE
            t = s.call("new", [ts(Ref(m), Str("sum"), ap, Ref(fl), gl)], keep=True)
            sc = s.call("new", [g.scope()], keep=True)
            if sc:
                objs.append((sc, "scope"))
            if t:
                objs.append((t, "ts"))
                f = s.call("new", [formula(g.pick(ARITH), List(Ref(t), Ref(t)), NONE, Ref(fl))], keep=True)
                if f:
                    objs.append((f, "formula"))
                    x = s.call("new", [g.mq(expr=Ref(g.pick([t, f])))], keep=True)
                    if x:
                        objs.append((x, "mq"))
                if sc and f:
                    x = s.call("new", [N("mq", "", [Ref(f), g.dtv(), g.dtv(), g.rollup(), Ref(sc), NONE, NONE, NONE, g.mappings()])], keep=True)
                    if x:
                        objs.append((x, "mq"))
    if g.p(0.4):
        cc = s.input(g.dq()["c"][1]) if g.p(0.4) else s.input(Dict({"id": List(*[Int(g.r.randint(0, 9)) for _ in range(g.size(4, 40, 1))]), "b": List(*[Str(g.pick(["x", "a", "", "B"])) for _ in range(g.size(4, 12, 1))])}))
        d = s.call("new", [N("dq", "", [Str("st"), Ref(cc)])], keep=True)
        if d:
            objs.append((d, "dq"))
    return objs


def c04(g: Gen2) -> Events:
    s = Session()
    objs = start_objects(g, s)
    if not objs:
        return s.events
    for _ in range(g.size(12, 30, 6)):
        h, k = g.pick(objs)
        m = g.r.random()
        if k in SETTERS and m < 0.5:
            f = g.pick(sorted(SETTERS[k]))
            x = SETTERS[k][f](g) if g.p(0.9) else g.junk()
            others = [i for i, kk in objs if kk == ("query" if f == "match" else "ts" if f == "query" else "?")]
            if others and g.p(0.4):
                x = Ref(g.pick(others))
            if f == "filters" and len(s.env) > 3 and g.p(0.3):
                lists = [i + 1 for i, n in enumerate(s.snap) if n["k"] == "list" and n["c"] and n["c"][0]["k"] in ("or", "and", "cond")]
                x = Ref(g.pick(lists)) if lists else x
            r = s.call("set", set_args(g, Ref(h), k, f, x), keep=True)
            if r:
                objs.append((r, k))
        elif m < 0.6 and k in ("query", "mq", "dq"):
            r = s.call("new", [N("request", "", [Str("ds"), Str("app"), Ref(h), g.flags(), Str("x"), Dict({"a": Int(1)})])], keep=True)
            if r:
                objs.append((r, "request"))
        else:
            ops = {"query": ["serialize", "print", "str", "validate"], "mq": ["serialize", "print", "str", "validate"],
                   "dq": ["serialize", "validate"], "request": ["to_dict", "json", "json_mql", "print", "str", "validate"],
                   "ts": ["validate"], "formula": ["validate"], "metric": ["validate"], "scope": ["validate"]}[k]
            s.call(g.pick(ops), [Ref(h)])
    return s.events


# ------------------------------------------------------------------------ C05
def corrupt_query(g: Gen2, q: Node) -> Node:
    m = g.r.random()
    q = clone(q)
    if m < 0.15:
        q["c"][1] = g.pick([NONE, List(), Tup()])
    elif m < 0.4:
        q["c"][11] = one("totals", Bool(True))
        q["c"][2] = g.pick([NONE, List(), Tup(), List(g.colgen())])
    elif m < 0.65:
        q["c"][g.r.randint(1, 6)] = g.pick([g.junk(), List(g.junk()), NONE, List()])
    elif m < 0.75:
        q["c"][g.r.randint(7, 11)] = g.junk()
    return q


def c05(g: Gen2) -> Events:
    ev = []
    for _ in range(4):
        q = g.query(g.pick([0, 0, 1, 2]), full=0.3)
        if g.p(0.6):
            q = corrupt_query(g, q)
        ev.append(run_call(g.pick(["validate", "serialize", "print", "str"]), [q], "accept"))
        ev.append(run_call("new", [query(g.junk() if g.p(0.7) else corrupt_query(g, g.query(0, "es")))], "accept"))
        f = g.pick(QF)
        x = QSETVAL[f](g) if g.p(0.4) else g.junk()
        if f in ("limit", "offset", "granularity", "totals") and g.p(0.5):
            x = g.pick([Int(0), Int(1), Int(-1), Int(10000), Int(10001), Bool(True), Bool(False), Flt(1.0), Str("1"), NONE])
        elif g.p(0.2):
            x = g.pick([List(), Tup(), NONE, N("list", "", [g.any_expr(), g.any_expr()])])
        ev.append(run_call("set", [q if q["c"][0]["k"] in ("entity", "storage", "join", "query") else query(entity("e")), Str(f), x], "full"))
    return ev


def c05_mut(g: Gen2) -> Events:
    """A valid query whose parts the caller changes afterwards."""
    s = Session()
    sel = s.input(List(g.colgen()))
    gb = s.input(List(g.colgen()))
    wh = s.input(List(g.condition(0)))
    cs = s.input(List(g.condition(0), g.condition(0)))
    fp = s.input(List(g.colgen()))
    if not (sel and gb and wh and cs and fp):
        return s.events
    fnh = s.call("new", [fn("ff", Ref(fp))], keep=True)
    orh = s.call("new", [N("or", "", [Ref(cs)])], keep=True)
    if not (fnh and orh):
        return s.events
    q = s.call("new", [query(entity("events"), select=Ref(sel), groupby=Ref(gb), where=Ref(wh), totals=one("totals", Bool(True)))], keep=True)
    q1 = s.call("new", [query(entity("events"), select=List(Ref(fnh)), where=List(Ref(orh)))], keep=True)
    outer = s.call("new", [query(Ref(q), select=List(fn("count", List())))], keep=True) if q else 0
    hs = [h for h in (q, q1, outer) if h]
    for _ in range(5):
        m = g.r.randrange(6)
        if m == 0:
            s.mutate(lambda env: env[sel - 1].clear())
        elif m == 1:
            s.mutate(lambda env: env[gb - 1].clear())
        elif m == 2:
            x = g.colgen()
            s.mutate(lambda env: env[sel - 1].append(codec.build(x)))
        elif m == 3:
            s.mutate(lambda env: env[cs - 1].pop() if env[cs - 1] else None)
        elif m == 4:
            s.mutate(lambda env: env[fp - 1].append(codec.Opaque()))
        else:
            x = g.colgen()
            s.mutate(lambda env: env[gb - 1].append(codec.build(x)))
        for h in hs:
            s.call(g.pick(["validate", "serialize", "print", "str"]), [Ref(h)], asp="accept")
    return s.events


def own_lists(q: object) -> list[list]:
    """The lists of the clauses of a query and of their members, and those of its inner query."""
    out = []
    for f in codec.KIND_OF[type(q)][1]:
        x = getattr(q, f)
        if f == "match" and type(x) is type(q):
            out += own_lists(x)
        members = list(x) if isinstance(x, (list, tuple)) else [x]
        if isinstance(x, list):
            out.append(x)
        for y in members:
            if type(y) in codec.KIND_OF and type(y) is not type(q):
                out += [z for z in (getattr(y, ff) for ff in codec.KIND_OF[type(y)][1]) if isinstance(z, list)]
    return out


def c05_mut2(g: Gen2) -> Events:
    """Any query, any list of it changed afterwards."""
    s = Session()
    g.big = 0
    h = s.call("new", [g.query(g.pick([0, 0, 1]), full=0.8)], keep=True)
    if not h:
        return s.events
    for _ in range(4):
        ls = own_lists(s.env[h - 1])
        if not ls:
            break
        lst = g.pick(ls)
        m = g.r.randrange(5)
        junk = codec.build(g.pick([N("obj"), Str("x"), Int(1), N("limit", "", [Int(1)]), col("zz"), cond(col("a"), "EQ", Int(1))]))

        def change(env: list, lst: list = lst, m: int = m, junk: object = junk) -> None:
            if m == 0:
                lst.clear()
            elif m == 1 and lst:
                lst.pop()
            elif m == 2 and lst:
                del lst[0]
            elif m == 3 and lst:
                lst.append(lst[0])
            else:
                lst.insert(g.r.randint(0, len(lst)), junk)
        s.mutate(change)
        for op in g.r.sample(["validate", "serialize", "print", "str"], 2):
            s.call(op, [Ref(h)], asp="accept")
    return s.events


# ------------------------------------------------------------------------ C06
def is_col(n: Node) -> bool:
    return n["k"] == "col"


def foreign(g: Gen2, m: Node) -> Node:
    """A column that probably does not resolve against m (or barely does)."""
    if m["k"] == "join":
        ents = [r["c"][i] for r in m["c"][0]["c"] for i in (0, 2)]
        e = clone(g.pick(ents))
        k = g.r.randrange(6)
        if k == 0:
            return col("a")
        if k == 1:
            e["c"][1] = Str(g.pick(["zz", "E", e["c"][1]["v"] + "x"]))
        elif k == 2:
            e["c"][0] = Str(g.pick(["other", e["c"][0]["v"] + "_x"]))
        elif k == 3:
            e["c"][2] = Flt(0.5)
        elif k == 4:
            f = g.pick(ents)
            e["c"][1] = f["c"][1]
        return col("a", e)
    if m["k"] == "query":
        names = g.exposed(m)
        return col(g.pick(["nope", "a", "inner", "count"] + [n + "x" for n in names[:2] if "[" not in n] + [n[:-1] for n in names[:2] if g.is_col_name(n[:-1])]
                          + [n.split("[")[0] for n in names[:2] if g.is_col_name(n.split("[")[0])] + [n + "[k]" for n in names[:2] if "[" not in n]
                          + [ascii_upper(n) for n in names[:2] if g.is_col_name(ascii_upper(n))]))
    return col(g.pick(["nope", "A", "a.x", "tag[x]", "nope[a]", "tags.x", "timestam", "timestamp_", "a[b]"]))


def c06(g: Gen2) -> Events:
    ev = []
    for _ in range(6):
        mt, cg = g.match(g.pick([1, 1, 2]), g.pick(["jq", "esjq", "esq"]))
        if mt["k"] in ("entity", "storage"):
            names = ["a", "b", "timestamp", "tags", "c.d"]
            mt["c"][-1] = dm([(n, g.p(0.3)) for n in names], "timestamp")
            cg = lambda: col(g.pick(names + ["tags[x]", "a[k]"]))  # noqa: E731
        full = g.pick([0.2, 0.5, 1.0])

        def body() -> Node:
            q = g.query(0, full=full)
            q["c"][0] = NONE
            return q
        old = g.match
        try:
            g.match = lambda d, k="esjq": (NONE, cg)  # type: ignore
            q = g.query(0, full=full)
        finally:
            g.match = old  # type: ignore
        q["c"][0] = mt
        if g.p(0.75):
            ps = [p for p in paths(q, is_col) if p[0] != 0]
            if ps:
                q = put(q, g.pick(ps), foreign(g, mt))
        ev.append(run_call(g.pick(["validate", "serialize", "print"]), [q], "accept"))
    m = dm([("a", True), ("tags", False), ("c.d", False)], "timestamp")
    e = entity("events", Str("e") if g.p(0.9) else NONE, NONE, m if g.p(0.8) else NONE)
    ev.append(run_call("new", [col(g.pick(["a", "tags", "tags[x]", "c.d", "timestamp", "nope", "nope[x]", "tag", "tags_", "c", "a[b]", "A"]), e)], "accept"))
    return ev


# ------------------------------------------------------------------------ C07
def c07(g: Gen2) -> Events:
    ev = []
    for _ in range(10):
        req = g.r.sample(["a", "b", "project_id", "org"], g.r.randint(0, 3))
        cols = [(c, True) for c in req] + [("x", False), ("tags", False)]
        model = dm(cols, "timestamp")

        def ent(alias: Node, withdm: float = 0.85) -> Node:
            return entity(g.pick(["events", "sessions"]), alias, NONE, model if g.p(withdm) else NONE)
        kind = g.pick("eeejqs")
        ents: list[Node] = []
        if kind == "j":
            a, b = ent(Str("e")), ent(Str("t"))
            b["c"][0] = Str("other")
            ents = [a, b]
            mt: Node = join([rel(a, "r", b)])
        elif kind == "s":
            mt = storage("events", NONE, model)
        else:
            mt = ent(Str("e") if g.p(0.3) else NONE)

        def cc(name: str, o: str) -> Node:
            e = NONE
            if ents and g.p(0.95):
                e = g.pick(ents)
            elif g.p(0.1):
                e = entity("events", Str(g.pick(["e", "z"])))
            v: Node = dt(2021, 1, 1) if name == "timestamp" else (List(Int(1)) if o in ("IN", "NOT_IN") else Int(1))
            return cond(col(name, e), o, NONE if o in UNARY else v)

        def all_for(e: Node) -> list[Node]:
            out = [cond(col(c, e), g.pick(["EQ", "IN"]), g.pick([List(Int(1)), Tup(Int(2)), Int(3)])) for c in req]
            return out + [cond(col("timestamp", e), "GTE", dt(2021, 1, 1)), cond(col("timestamp", e), "LT", dt(2021, 1, 2))]
        cs: list[Node] = []
        for e in ents or [NONE]:
            cs += all_for(e)
        k = g.r.random()
        if k < 0.6:      # break it, maybe
            i = g.r.randrange(len(cs))
            h = g.r.randrange(6)
            if h == 0:
                del cs[i]
            elif h == 1:
                cs[i] = clone(cs[i])
                o2 = g.pick(OPS)
                cs[i] = cond(cs[i]["c"][0], o2, NONE if o2 in UNARY else cs[i]["c"][2])
            elif h == 2:
                cs[i] = boolc("or", [cs[i], cc("x", "EQ")], g.pick(["", "bcond"]))
            elif h == 3:
                cs[i] = cond(fn("ff", List(cs[i]["c"][0])), cs[i]["c"][1]["v"], cs[i]["c"][2])
            elif h == 4:
                cs[i] = boolc("or", [boolc("and", [cs[i], cc("x", "EQ")]), cc("x", "EQ")])
            else:
                cs = cs[:-1]
        for _ in range(g.r.randint(0, 2)):
            cs.append(cc(g.pick(["x", "tags", "a", "timestamp"]), g.pick(OPS)))
        g.r.shuffle(cs)
        # nest some in ANDs
        for _ in range(g.r.randint(0, 2)):
            if len(cs) >= 2:
                i = g.r.randrange(len(cs) - 1)
                cs[i:i + 2] = [boolc("and", cs[i:i + 2], g.pick(["", "bcond"]))]
        kw = {"select": List(fn("count", List()))}
        if cs and g.p(0.95):
            kw["where"] = List(*cs)
        if g.p(0.2):
            kw["having"] = List(*all_for(NONE if not ents else ents[0]))
        q = query(mt, **kw)
        if kind == "q":
            q = query(q, select=List(fn("count", List())))
            if g.p(0.3):
                q = query(q, select=List(fn("count", List())))
        ev.append(run_call("required", [q], "accept"))
    return ev


# ------------------------------------------------------------------------ C08
BOUND = ["", " ", "\n", "\t", "-", ".", ":", "/", "@", "[", "]", "[]", "(", ")", "*", "+", "'", '"', "`", "$", "%", "\\", ",", ";", "#",
         "{", "}", "é", "中", "٣", "ª", "\u00a0", "\u2028", "\u0000", "0", "9", "_", "A", "z", "a\n", "😀", "\r", "\x0b", "\x85", "\u200b"]


def mangle(g: Gen2, s: str) -> str:
    i = g.pick([0, len(s), g.r.randint(0, len(s))])
    m = g.r.randrange(4)
    if m == 0:
        return s[:i] + g.pick(BOUND) + s[i:]
    if m == 1:
        return s[:i] + g.pick(BOUND) + s[i + 1:]
    if m == 2:
        return s[:i] + s[i + 1:]
    return g.pick(BOUND) + s[:g.r.randint(0, 2)]


def name_or_junk(g: Gen2, s: str) -> Node:
    m = g.r.random()
    if m < 0.35:
        return Str(s)
    if m < 0.85:
        return Str(mangle(g, s))
    return g.pick([NONE, Int(1), N("bytes", s), List(Str(s)), Bool(True), N("obj"), Str("")])


def c08_node(g: Gen2) -> Node:
    k = g.pick(["col", "col", "aliased", "cfn", "fn", "ident", "lambda", "entity", "entity", "storage", "rel", "join", "cond", "bcond", "and",
                "or", "orderby", "limitby", "limit", "offset", "gran", "totals", "extrap"])
    j = lambda x, p=0.2: g.junk() if g.p(p) else x  # noqa: E731
    ints = lambda: g.pick([Int(0), Int(1), Int(-1), Int(10000), Int(10001), Int(9999), Bool(True), Bool(False), Flt(1.0), Flt(0.5), Str("1"),  # noqa: E731
                           NONE, Int(10**20), Int(-10**20), g.junk(), Int(g.r.randint(-3, 10005))])
    if k == "col":
        return N("col", "", [name_or_junk(g, g.col_name()), NONE if g.p(0.6) else j(entity("events", Str("e") if g.p(0.7) else NONE))])
    if k == "aliased":
        return N("aliased", "", [j(col("a"), 0.3), g.pick([NONE, name_or_junk(g, g.alias())])])
    if k in ("fn", "cfn"):
        ps = g.pick([NONE, g.seq([g.param(1) if g.p(0.8) else g.junk() for _ in range(g.size(3, 5))]), g.junk()])
        c = [name_or_junk(g, g.fn_name())]
        if k == "cfn":
            c.append(g.pick([NONE, g.seq([g.lit() if g.p(0.7) else g.junk() for _ in range(g.size(2, 4))]), g.junk()]))
        return N(k, "", c + [ps, g.pick([NONE, name_or_junk(g, g.alias())])])
    if k == "ident":
        return N("ident", "", [name_or_junk(g, g.ident_name())])
    if k == "lambda":
        return N("lambda", "", [j(g.seq([name_or_junk(g, g.ident_name()) if g.p(0.3) else Str(g.ident_name()) for _ in range(g.size(3, 5))])), j(g.func(0))])
    if k in ("entity", "storage"):
        sample = g.pick([NONE, Flt(0.1), Flt(0.0), Flt(-1.5), Int(1), Bool(True), Flt(1e-9), Flt(-0.0), Str("1"), g.sample()])
        model = g.pick([NONE, NONE, dm([("a", True)], "t"), Int(1), List(), Str("")])
        al = g.pick([NONE, Str("e"), Str(""), Int(1), Str("a b"), N("bytes", "e"), Bool(False)])
        return N(k, "", [name_or_junk(g, g.entity_name())] + ([al] if k == "entity" else []) + [sample, model])
    if k == "rel":
        e = lambda: g.pick([entity("a", Str("x")), entity("b", Str("y")), entity("a"), g.junk()])  # noqa: E731
        return N("rel", "", [e(), g.pick([Str("r"), Str(""), Int(1), NONE, Str("r s")]), e()])
    if k == "join":
        e = lambda: entity(g.pick(["a", "b"]), Str(g.pick(["x", "y", "z"])), g.pick([NONE, NONE, Flt(0.5)]))  # noqa: E731
        return N("join", "", [j(g.seq([rel(e(), "r", e()) if g.p(0.9) else g.junk() for _ in range(g.size(3, 5))]))])
    if k == "cond":
        o = g.pick(OPS)
        return N("cond", "", [j(g.expr(1)), j(op(o), 0.15), g.pick([NONE, g.scalar(2), g.junk(), g.expr(1)])])
    if k in ("bcond", "and", "or"):
        cs = j(g.seq([g.condition(0) if g.p(0.85) else g.junk() for _ in range(g.r.randint(0, 4))]), 0.1)
        return N(k, "", ([j(N("bop", g.pick(["AND", "OR"])))] if k == "bcond" else []) + [cs])
    if k == "orderby":
        return N("orderby", "", [j(g.expr(1)), j(N("dir", g.pick(["ASC", "DESC"])))])
    if k == "limitby":
        return N("limitby", "", [j(g.seq([g.colgen() if g.p(0.85) else g.junk() for _ in range(g.size(2, 4))])), ints()])
    if k in ("limit", "offset", "gran"):
        return N(k, "", [ints()])
    return N(k, "", [g.pick([Bool(True), Bool(False), Int(1), Int(0), NONE, Str("True"), g.junk()])])


def hashable_only(n: Node) -> bool:
    return True


def c08(g: Gen2) -> Events:
    ev = []
    for _ in range(25):
        n = c08_node(g)
        if bad_set(n):
            continue
        ev.append(run_call("new", [n]))
        if n["k"] == "col" and ev[-1]["ok"]:
            ev.append(run_call("colparts", [n]))
    return ev


def bad_set(n: Node) -> bool:
    return False


# ------------------------------------------------------------------------ C09
def c09(g: Gen2) -> Events:
    s = Session()
    pool = []
    for _ in range(4):
        q = g.query(g.pick([0, 1, 2, 3]), g.pick(["j", "jq", "esjq"]), full=g.pick([0.1, 0.3]))
        pool.append(q)
    bad = [query(g.join_match()[0], select=List(col("a"))), query(entity("events", Str("e"))), query(entity("events"), select=List(fn("ff", List(N("badbytes", "x")))))]
    jm, ents = g.join_match()
    bad.append(query(jm, select=List(col("a", g.pick(ents)), fn("ff", List(N("badbytes", "x"))))))
    for _ in range(7):
        q = g.pick(pool) if g.p(0.8) else g.pick(bad)
        s.call(g.pick(["serialize", "print", "serialize", "str"]), [q])
    return s.events


# ------------------------------------------------------------------ C10 - C12
def c10(g: Gen2) -> Events:
    ev = []
    g.esc = g.pick([0, 0, 0, 0.1])
    for _ in range(8):
        ev.append(run_call("roundtrip", [g.mexpr()]))
        ev.append(run_call("reparse", [Str(g.mql_text(0.97))]))
    return ev


def c11(g: Gen2) -> Events:
    ev = []
    for _ in range(10):
        ev.append(run_call("parse", [Str(g.mql_text(0.7))]))
    if g.p(0.3):
        ev.append(run_call("serialize", [g.mq(expr=Str(g.mql_text(0.8)))]))
    return ev


def c12(g: Gen2) -> Events:
    ev = []
    for _ in range(6):
        x = g.mq(wide=g.p(0.5), expr=Str(g.mql_text(0.95)) if g.p(0.15) else None)
        ev.append(run_call(g.pick(["serialize", "serialize", "print", "str"]), [x]))
    return ev


# ------------------------------------------------------------------------ C13
def c13_node(g: Gen2) -> tuple[str, Node]:
    j = lambda x, p=0.2: g.junk() if g.p(p) else x  # noqa: E731
    k = g.pick(["metric", "ts", "ts", "rollup", "rollup", "rollup", "scope", "formula", "formula", "formula", "mq", "mq"])
    if k == "metric":
        return "new", metric(g.pick([NONE, j(Str("a.b"))]), g.pick([NONE, j(Str("d:a/b@c"))]), g.pick([NONE, j(Int(3)), Bool(True), Str("1"), Flt(1.0)]))
    if k == "ts":
        return "new", ts(j(metric(Str("x"))), j(Str("sum"), 0.15),
                         g.pick([NONE, j(List(*[g.lit() if g.p(0.9) else g.junk() for _ in range(g.size(2, 4))]))]),
                         g.pick([NONE, j(List(*[g.mql_filter(1) if g.p(0.9) else g.junk() for _ in range(g.size(2, 4))]))]),
                         g.pick([NONE, j(List(*[col("a") if g.p(0.8) else g.pick([N("aliased", "", [col("a"), Str("b")]), g.junk()]) for _ in range(g.size(2, 4))]))]))
    if k == "rollup":
        return "new", N("rollup", "", [
            g.pick([NONE, NONE, Int(60), Int(10), Int(9), Int(11), Int(59), Int(61), Int(3600), Int(3599), Int(86400), Int(86399), Bool(True), Flt(60.0), Int(0), Int(-60), Str("60"), Int(10**15), Int(g.r.randint(0, 4000))]),
            g.pick([NONE, Bool(True), Bool(False), Int(1), Int(0), Str("True")]) if g.p(0.6) else NONE,
            g.pick([NONE, N("dir", "ASC"), N("dir", "DESC"), Str("ASC"), Int(1), N("op", "EQ")]) if g.p(0.4) else NONE,
            g.pick([NONE, Int(10), Int(60), Int(3600), Int(86400), Int(61), Int(0), Bool(True), Flt(60.0), Str("60"), Int(1), Int(-10), Int(600)])])
    if k == "scope":
        ids = lambda: j(List(*[g.pick([Int(1), Int(0), Bool(True)]) if g.p(0.9) else g.junk() for _ in range(g.size(3, 5))]), 0.2)  # noqa: E731
        return "new", N("scope", "", [ids(), ids(), g.pick([NONE, Str("x"), Str(""), j(Str("y"), 0.7)])])
    if k == "formula":
        return "validate", bad_formula(g)
    x = g.mq(expr=g.pick([g.ts(), g.formula(1), bad_formula(g), Str(g.mql_text(0.6)), NONE]))
    if g.p(0.6):
        x["c"][g.r.randrange(9)] = g.pick([NONE, g.junk(), g.any_expr()])
    return g.pick(["validate", "serialize", "print"]), x


def bad_formula(g: Gen2) -> Node:
    f = g.formula(g.pick([0, 1, 2]))
    fs = [p for p in paths(f, lambda n: n["k"] == "formula")]
    m = g.r.random()
    if m < 0.15:
        p = g.pick(fs)
        x = clone(at(f, p))
        x["c"][1] = g.pick([NONE, List(), g.junk(), Str("ab"), Str("")])
        f = put(f, p, x)
    elif m < 0.3:
        p = g.pick(fs)
        x = clone(at(f, p))
        if x["c"][1]["c"]:
            x["c"][1]["c"][g.r.randrange(len(x["c"][1]["c"]))] = g.pick([g.junk(), Str("x"), NONE, Bool(True), Flt(1.5), N("bytes", "x")])
        f = put(f, p, x)
    elif m < 0.5:
        tp = paths(f, lambda n: n["k"] in ("ts", "formula"))
        p = g.pick(tp)
        x = clone(at(f, p))
        x["c"][4] = List(*[col(g.pick(["a", "b", "c"])) for _ in range(g.size(2, 3))])
        f = put(f, p, x)
    elif m < 0.7:     # no timeseries
        for p in paths(f, lambda n: n["k"] == "ts"):
            if g.p(0.8):
                f = put(f, p, Int(3))
    elif m < 0.75:
        f = clone(f)
        f["c"][0] = g.junk()
    elif m < 0.82:    # tuple parameters
        p = g.pick(fs)
        x = clone(at(f, p))
        x["c"][1] = Tup(*x["c"][1]["c"])
        f = put(f, p, x)
    return f


def c13(g: Gen2) -> Events:
    ev = []
    for _ in range(12):
        o, n = c13_node(g)
        ev.append(run_call(o, [n], "accept"))
    k = g.pick(["mq", "ts", "formula", "metric", "scope"])
    base = {"mq": lambda: g.mq(), "ts": lambda: g.ts(), "formula": lambda: g.formula(0), "metric": lambda: g.metric(), "scope": lambda: g.scope()}
    for _ in range(4):
        f = g.pick(sorted(SETTERS[k]))
        x = SETTERS[k][f](g) if g.p(0.5) else g.junk()
        a = set_args(g, base[k](), k, f, x)
        if len(a) == 4 and g.p(0.4):
            a[3] = g.junk()
        ev.append(run_call("set", a))
    return ev


# ------------------------------------------------------------------ C14, C17
def c14(g: Gen2) -> Events:
    ev = []
    for _ in range(4):
        x = g.request()
        for o in g.r.sample(["to_dict", "json", "json_mql", "print", "str", "validate"], 2):
            ev.append(run_call(o, [x]))
    return ev


def c17(g: Gen2) -> Events:
    ev = []
    for _ in range(6):
        d = g.dq()
        if g.p(0.4):
            kvs = d["c"][1]["c"]
            if kvs and g.p(0.6):
                kvs[g.r.randrange(len(kvs))]["c"][0] = g.pick([List(), Tup(), Tup(Int(1)), Str("x"), Str(""), NONE, List(Int(0)), List(Str("")), List(NONE)])
            else:
                d["c"][1] = g.pick([Dict({}), NONE, List(), Dict({"a": List()}), Dict({"": List(Int(1))}), Dict({"a": List(Int(1)), "b": List()})])
        ev.append(run_call(g.pick(["validate", "serialize"]), [d]))
        ev.append(run_call(g.pick(["to_dict", "json", "json_mql", "print", "str", "validate"]),
                           [N("request", "", [Str("ds"), Str("app"), d, g.pick([NONE, g.flags()]), Str("x"), Dict({})])]))
    return ev


def c17_hist(g: Gen2) -> Events:
    s = Session()
    a = s.input(List(Int(1), Int(2)))
    b = s.input(List(Str("x")))
    cc = s.input(N("dict", "", [Kv("a", Ref(a)), Kv("b", Ref(b))]))
    d = s.call("new", [N("dq", "", [Str("st"), Ref(cc)])], keep=True)
    rq = s.call("new", [N("request", "", [Str("ds"), Str("app"), Ref(d), NONE, Str("x"), Dict({})])], keep=True) if d else 0
    if not rq:
        return s.events
    for _ in range(5):
        m = g.r.randrange(7)
        if m == 0:
            s.mutate(lambda env: env[a - 1].clear())
        elif m == 1:
            s.mutate(lambda env: env[b - 1].clear())
        elif m == 2:
            s.mutate(lambda env: env[cc - 1].clear())
        elif m == 3:
            s.mutate(lambda env: env[a - 1].append(7))
        elif m == 4:
            s.mutate(lambda env: env[cc - 1].update(c=[]))
        elif m == 5:
            s.mutate(lambda env: env[cc - 1].update(c=[1]))
        else:
            s.mutate(lambda env: env[b - 1].append("y"))
        s.call(g.pick(["validate", "serialize"]), [Ref(d)])
        s.call(g.pick(["to_dict", "json", "json_mql", "print", "str", "validate"]), [Ref(rq)])
    return s.events


# ------------------------------------------------------------------------ C15
def c15(g: Gen2) -> Events:
    s = Session()
    for _ in range(3):
        h = s.input(g.leg_body())
        e = g.leg_entity()
        r = s.call("legacy", [Ref(h), Str(e)], keep=True)
        s.call("legacy", [Ref(h), Str(e)])
        if g.p(0.3):
            s.call("legacy", [Ref(h), Str(g.leg_entity())])
        if r and g.p(0.3):
            s.call(g.pick(["to_dict", "json", "json_mql"]), [Ref(r)])
    return s.events


# ------------------------------------------------------------------------ C16
def any_call(g: Gen2) -> tuple[str, list[Node]]:
    """Any operation on any object, often one that fails part-way."""
    m = g.r.randrange(12)
    if m < 4:
        q = g.query(g.pick([0, 1, 2]), full=0.25)
        k = g.r.random()
        if k < 0.15:
            q = corrupt_query(g, q)
        elif k < 0.35 and q["c"][1]["c"]:
            q["c"][1] = List(*q["c"][1]["c"], fn("ff", List(Str("abc"), N("badbytes", "x"))))
        return g.pick(["serialize", "print", "str", "validate"]), [q]
    if m < 7:
        x = g.mq(wide=g.p(0.3), expr=Str(g.mql_text(0.9)) if g.p(0.2) else None)
        if g.p(0.2):
            x["c"][g.r.randrange(9)] = NONE
        return g.pick(["serialize", "print", "str", "validate"]), [x]
    if m < 8:
        return "parse", [Str(g.mql_text(0.7))]
    if m < 9:
        return g.pick(["to_dict", "json", "json_mql"]), [g.request()]
    if m < 10:
        return "legacy", [g.leg_body(), Str(g.leg_entity())]
    if m < 11:
        return "required", [g.query(0, "e")]
    return "find", [g.query(1), Str(g.pick(["Column", "AliasedExpression"]))]


def tweak(g: Gen2, n: Node) -> Node:
    """The same call with one leaf a little different, as a cache might confuse them."""
    leaves = [p for p in paths(n, lambda x: not x["c"] and x["k"] in ("int", "bool", "float", "str", "op", "none", "bytes", "dir"))
              if p and not any(at(n, p[:i])["k"] in ("dt", "date", "dm", "set") for i in range(len(p)))] or \
        ([()] if n["k"] == "str" else [])
    seqs = paths(n, lambda x: x["k"] in ("list", "tuple") and len(x["c"]) > 1)
    for _ in range(6):
        if seqs and g.p(0.2):
            p = g.pick(seqs)
            x = clone(at(n, p))
            if g.p(0.5):
                x["c"].reverse()
            else:
                x["k"] = "tuple" if x["k"] == "list" else "list"
            return put(n, p, x)
        if not leaves:
            return n
        p = g.pick(leaves)
        x = at(n, p)
        k, v = x["k"], x["v"]
        if k == "int":
            return put(n, p, g.pick([Flt(float(v)) if len(v) < 15 else Int(int(v) + 1), Str(v), Int(int(v) + 1)] + ([Bool(v == "1")] if v in ("0", "1") else [])))
        if k == "bool":
            return put(n, p, Int(v == "True"))
        if k == "float" and v.endswith(".0"):
            return put(n, p, Int(int(float(v))))
        if k == "str" and v:
            return put(n, p, Str(g.pick([v + "x", ascii_upper(v), v[:-1], v + " "])))
        if k == "op" and v in OPS and v not in UNARY:
            return put(n, p, N("op", g.pick([o for o in OPS if o not in UNARY])))
        if k == "dir":
            return put(n, p, N("dir", "ASC" if v == "DESC" else "DESC"))
        if k == "none" and p and at(n, p[:-1])["k"] in ("fn", "cfn", "entity"):
            return put(n, p, Str("al"))
    return n


def c16(g: Gen2) -> Events:
    s = Session()
    pool = [any_call(g) for _ in range(3)]
    for _ in range(3):
        o, a = g.pick(pool)
        a = [tweak(g, a[0])] + a[1:]
        pool.append((g.pick([o, o, "serialize", "print", "validate"]) if a[0]["k"] in ("query", "mq") and o != "required" and o != "find" else o, a))
    for _ in range(9):
        o, a = g.pick(pool)
        s.call(o, a)
    return s.events


def mutable_parts(o: object, out: list, depth: int = 0) -> None:
    if depth > 6:
        return
    if isinstance(o, (list, dict)) or type(o) is codec.CLASSES["flags"][0]:
        out.append(o)
    if isinstance(o, (list, dict)):
        for x in (o if isinstance(o, list) else list(o.values())):
            mutable_parts(x, out, depth + 1)
    elif type(o) in codec.KIND_OF:
        for f in codec.KIND_OF[type(o)][1]:
            mutable_parts(getattr(o, f), out, depth + 1)
    elif isinstance(o, tuple):
        for x in o:
            mutable_parts(x, out, depth + 1)


def c16_own(g: Gen2) -> Events:
    """What a call returned belongs to the caller: changing it changes no later result."""
    s = Session()
    for _ in range(3):
        m = g.r.random()
        if m < 0.5:
            c = ("parse", [Str(g.mql_text(0.97))])
        elif m < 0.7:
            q = g.pick([query(entity("events"), select=List(col("a"))), g.dq(), g.mq()])
            c = ("new", [N("request", "", [Str("ds"), Str("app"), q, codec.DEFAULTS[3], g.pick([codec.DEFAULTS[4], Str("p")]), g.pick([codec.DEFAULTS[5], Dict({"o": Int(1)})])])])
        else:
            c = ("legacy", [g.leg_body(), Str(g.leg_entity())])
        h = s.call(c[0], c[1], keep=True)
        if not h:
            continue

        def spoil(env: list, h: int = h) -> None:
            parts: list = []
            mutable_parts(env[h - 1], parts)
            for p in parts:
                if g.p(0.7):
                    if isinstance(p, list):
                        if p and g.p(0.6):
                            p.pop()
                        else:
                            p.append(7)
                    elif isinstance(p, dict):
                        p["spoilt"] = 1
                    else:
                        p.debug, p.turbo = True, False
        s.mutate(spoil)
        s.call(c[0], c[1])
        if g.p(0.3):
            s.call(c[0], [tweak(g, c[1][0])] + c[1][1:])
    return s.events


def conc_calls(g: Gen2) -> tuple[list[tuple[str, list[Node]]], list[Node]]:
    """Two calls to run at the same time, and the objects they share."""
    def small(f: Callable[[], Any]) -> Any:
        for _ in range(30):
            x = f()
            if len(json.dumps(x)) < 6000:
                return x
        return x
    m = g.r.random()
    if m < 0.35:      # the same object in both threads
        k = g.r.randrange(5)
        if k < 2:
            n = small(lambda: g.query(g.pick([0, 1, 1]), g.pick(["j", "e", "eq", "esjq"]), full=0.3))
            ops = ["serialize", "print", "str", "validate"]
        elif k < 4:
            n = small(lambda: g.mq())
            ops = ["serialize", "print", "str", "validate"]
        else:
            n = small(lambda: g.request())
            ops = ["to_dict", "json", "json_mql", "validate", "print"]
        return [(g.pick(ops), [Ref(1)]), (g.pick(ops), [Ref(1)])], [n]
    if m < 0.55:      # a join and something that is none: qualification
        qs = [small(lambda: g.query(1, "j", full=0.4)), small(lambda: g.query(1, g.pick(["e", "s"]), full=0.4))]
        if g.p(0.5):
            qs.reverse()
        return [(g.pick(["serialize", "print"]), [Ref(1)]), (g.pick(["serialize", "print"]), [Ref(2)])], qs
    if m < 0.7:
        return [("parse", [Str(small(lambda: g.mql_text(0.9)))]), ("parse", [Str(small(lambda: g.mql_text(0.9)))])], []
    return [small(lambda: any_call(g)), small(lambda: any_call(g))], []


def conc_session(seed: int, i: int, limit: int, opcodes: bool = False) -> tuple[Events, int]:
    import conc
    g = Gen2(f"conc/{seed}/{i}")
    g.big = 0.0
    calls, heap = conc_calls(g)
    return conc.explore(calls, heap, g.r, limit, fresh=i % 3 == 0, opcodes=opcodes)


# ------------------------------------------------------------------------ C18
def c18(g: Gen2) -> Events:
    ev = []
    for _ in range(6):
        q = g.query(g.pick([0, 1, 1, 2, 3]), full=g.pick([0.15, 0.35, 0.7]))
        if g.p(0.1):
            q = corrupt_query(g, q)
        ev.append(run_call("print", [q]))
        if g.p(0.2):
            ev.append(run_call("serialize", [q]))
    return ev


# ------------------------------------------------------------------------ C19
SUFFIXES = ["", "If", "Array", "State", "Merge", "OrNull", "ForEach", "OrDefault", "MergeState", "Resample", "SampleState", "IfX", "if"]
AGGS = ["count", "sum", "uniq", "quantile", "topK", "avg", "min", "max", "any", "argMax", "apdex", "failure_rate", "uniqHLL12", "uniqCombined64",
        "groupArray", "histogram", "quantileTDigest", "sumMap", "retention", "countt", "xcount", "Count", "plus", "toString", "ifNull", "tuple"]


def agg_name(g: Gen2) -> str:
    n = g.pick(AGGS) + (g.pick(SUFFIXES) if g.p(0.5) else "")
    m = g.r.random()
    if m < 0.2:
        n += "(" + g.pick(["3", "x", "", "a, b", "sum(x)", "f(count)"]) + ")"
    elif m < 0.3:
        n = g.pick(["plus", "f1", "divide"]) + "(" + g.pick([n + "(a)", "a, " + n + "()", n, "al", "uniqHLL12(b)"]) + ")"
    return n


def agg_fn(g: Gen2, depth: int) -> Node:
    ps = []
    for _ in range(g.size(3, 8)):
        m = g.r.random()
        if m < 0.35:
            ps.append(col(g.pick(["a", "b", "al", "al2", "tags[x]"])))
        elif m < 0.6 and depth > 0:
            ps.append(agg_fn(g, depth - 1))
        elif m < 0.7:
            ps.append(List(col("al")) if g.p(0.5) else List(fn("count", List())))
        elif m < 0.8 and depth > 0:
            ps.append(N("lambda", "", [List(Str("x")), agg_fn(g, depth - 1)]))
        else:
            ps.append(g.lit())
    name = agg_name(g) if g.p(0.35) else g.pick(["plus", "divide", "toString", "ff"])
    if g.p(0.25):
        return cfn(name, List(Int(1)), g.seq(ps))
    return fn(name, g.seq(ps) if g.p(0.95) else NONE)


def unhash(n: Node, top: bool = True) -> Node:
    """Make every sequence a tuple, so that the expression can be in a set."""
    n = clone(n)

    def go(x: Node) -> None:
        if x["k"] == "list":
            x["k"] = "tuple"
        for y in x["c"]:
            go(y)
    go(n)
    return n


def c19(g: Gen2) -> Events:
    ev = []
    for _ in range(4):
        q = g.query(g.pick([0, 1]), full=g.pick([0.3, 0.6, 1.0]))
        k = g.pick(["Column", "Column", "AliasedExpression", "Function", "CurriedFunction"])
        if k in ("Function", "CurriedFunction"):
            for i in (1, 2, 4, 5, 6):
                if q["c"][i]["c"]:
                    q["c"][i]["c"] = [unhash(x) for x in q["c"][i]["c"]]
        ev.append(run_call("find", [q, Str(k)]))
    for _ in range(6):
        al = g.pick([NONE, N("set", ""), N("set", "", [Str("al")]), N("set", "", [Str("al"), Str("al2")]), N("set", "", [Str("tags[x]")])])
        ev.append(run_call("aggname", [Str(agg_name(g)), al]))
        f = agg_fn(g, g.pick([0, 1, 2, 3]))
        ev.append(run_call("isagg", [f, al]))
        cols = [at(f, p) for p in paths(f, is_col)] + [col("a"), col("zz"), col("a", entity("e", Str("x")))]
        ev.append(run_call("hascol", [g.pick(cols), f]))
    return ev


# property -> [(profile, weight)]
PROFILES: dict[str, list[tuple[Callable[[Gen2], Events], float]]] = {
    "C01": [(c01, 1)], "C02": [(c02, 1)], "C03": [(c03, 1)], "C04": [(c04, 1)], "C05": [(c05, 0.6), (c05_mut, 0.15), (c05_mut2, 0.25)],
    "C06": [(c06, 1)], "C07": [(c07, 1)], "C08": [(c08, 1)], "C09": [(c09, 1)], "C10": [(c10, 1)], "C11": [(c11, 1)],
    "C12": [(c12, 1)], "C13": [(c13, 1)], "C14": [(c14, 1)], "C15": [(c15, 1)], "C16": [(c16, 0.7), (c16_own, 0.3)],
    "C17": [(c17, 0.6), (c17_hist, 0.4)], "C18": [(c18, 1)], "C19": [(c19, 1)],
}


def in_domain(evs: Events) -> Events:
    """Nothing, if an input has a character that spec/chars.json does not classify."""
    for e in evs:
        t = json.dumps([e["a"], e["r"] if e["op"] == "input" else 0], ensure_ascii=False)
        if not set(t) <= KNOWN:
            return []
    return evs


def make_session(prop: str, seed: int, i: int) -> Events:
    g = Gen2(f"{prop}/{seed}/{i}")
    g.big = 0.02 if i % 10 else 0.15
    fs = PROFILES[prop]
    x = g.r.random() * sum(w for _, w in fs)
    for f, w in fs:
        x -= w
        if x <= 0:
            break
    return in_domain(f(g))
