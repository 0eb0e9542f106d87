-------------------------------- MODULE McPool --------------------------------
(***************************************************************************)
(* C16: calls that might disturb each other.  A group is a family of calls  *)
(* that use the same parts of the SDK and whose outcomes differ: some       *)
(* succeed, some raise half-way.  The harness runs every ordered pair of    *)
(* calls of the whole pool one after the other in a process of its own, and *)
(* every ordered pair of a family in two threads under every schedule with  *)
(* one preemption (and some with two).                                      *)
(***************************************************************************)
EXTENDS Mc

A == Col("a")
L(x) == ListN(x)
S(x) == Str(x)
Ev == Ent("events", "e")
Tx == Ent("transactions", "t")
Dm == DmN(<<Scol("a", TRUE), Scol("timestamp", FALSE)>>, Scol("timestamp", FALSE))
EDm == EntityN("events", None, None, Dm)
J == JoinN(<<RelN(Ev, "r", Tx)>>)
J2 == JoinN(<<RelN(Tx, "r2", Ent("sessions", "s"))>>)
C1 == CondN(A, "EQ", IntN(1))
C2 == CondN(A, "EQ", IntN(2))
Tot(q) == With(q, "totals", OneN("totals", True))
In1 == Qs(E0, <<A, FnA("max", <<Col("b")>>, "m")>>)
\* queries: well-formed and not
Qok == Where(Qs(E0, <<Count, A>>), <<OrN(<<C1, C2>>)>>)
Qtot == Tot(Q0(E0))
Qgrp == With(Tot(Q0(E0)), "groupby", L(<<A>>))
Qnosel == Qs(E0, <<>>)
Qj == Qs(J, <<ColE("a", Ev), ColE("b", Tx)>>)
Qjbad == Qs(J, <<Col("a")>>)
Qjbad2 == Qs(J, <<ColE("a", Ent("events", "z"))>>)
Qj2 == Qs(J2, <<ColE("a", Tx), FnA("f1", <<ColE("b", Ent("sessions", "s"))>>, "x")>>)
Qs1 == Qs(In1, <<A, Col("m")>>)
Qs1bad == Qs(In1, <<Col("zz")>>)
Qs2 == Qs(Qs(J, <<ColE("a", Ev), FnA("max", <<ColE("b", Tx)>>, "m")>>), <<Col("m")>>)
Qs2bad == Qs(Qtot, <<Col("cnt")>>)
Qent == Qs(E0, <<ColE("a", Ev)>>)
Qdm == Qs(EDm, <<A>>)
Qdmbad == Qs(EDm, <<Col("zz")>>)
Qbig == N("query", "", <<E0, L(<<Cfn("quantile", L(<<Flt("0.5")>>), L(<<A>>), S("q")), AliasedN(Col("tags[k]"), S("k")), Fn("f1", <<LamN(<<S("x")>>, Fn("f2", <<IdN("x"), A>>))>>)>>), L(<<A>>), L(<<A>>), L(<<C1, AndN(<<C2, C1>>)>>), L(<<CondN(Fn("f1", <<>>), "GT", IntN(1))>>), L(<<OrderN(A, "DESC")>>), LimitByN(<<A>>, 5), OneN("limit", IntN(10)), OneN("offset", IntN(1)), OneN("gran", IntN(60)), OneN("totals", True)>>)
QRaise == Qs(E0, <<Fn("f1", <<N("badbytes", "x", <<>>)>>)>>)       \* fails while it is rendered
OrQ(x, n) == Where(Q0(E0), <<OrN([i \in 1..n |-> CondN(x, "EQ", IntN(i))])>>)
\* metrics
M1 == MetricN(S("a.b"), None)
F1 == L(<<OrN(<<CondN(Col("x"), "EQ", S("1")), CondN(Col("x"), "EQ", S("2"))>>)>>)
Ts1 == TsN(M1, "sum", None, None, None)
Ts2 == TsN(MetricN(None, S("d:t/x@s")), "quantiles", L(<<Flt("0.5"), Flt("0.9")>>), F1, L(<<Col("g"), AliasedN(Col("h"), S("i"))>>))
TsBad == TsN(M1, "sum", None, L(<<CondN(Col("x"), "GT", IntN(1))>>), None)      \* an operator MQL lacks
Fo1 == FormulaN("plus", <<Ts1, IntN(1)>>, None, None, None)
Fo2 == FormulaN("divide", <<FormulaN("minus", <<Ts2, Ts2>>, None, F1, None), Ts2>>, None, None, L(<<Col("g"), AliasedN(Col("h"), S("i"))>>))
FoBad == FormulaN("plus", <<IntN(1), IntN(2)>>, None, None, None)
FoArb == FormulaN("apdex", <<Ts1, IntN(500)>>, L(<<IntN(3)>>), F1, None)
Roll(i, g) == N("rollup", "", <<i, IF IsNone(i) THEN True ELSE None, None, g>>)
Sco(o) == N("scope", "", <<L(<<IntN(o)>>), L(<<IntN(11), IntN(12)>>), IF o = 1 THEN None ELSE S("uc")>>)
Mq(x, o) == N("mq", "", <<x, DtN(2024, 1, o, 0, 0, 0, 0, None), DtN(2024, 1, 20, 0, 0, 0, o, IF o = 1 THEN None ELSE IntN(3600)), IF o = 1 THEN Roll(IntN(60), IntN(60)) ELSE Roll(None, IntN(3600)), Sco(o), IF o = 1 THEN None ELSE OneN("limit", IntN(o)), None, IF o = 1 THEN None ELSE OneN("extrap", True), DictN(<<Kv("m" \o ToString(o), IntN(o))>>)>>)
Mqs == {Mq(Ts1, 1), Mq(Ts2, 2), Mq(Fo1, 1), Mq(Fo2, 3), Mq(FoArb, 2), Mq(FoBad, 1), Mq(TsBad, 1), Mq(S("sum(a.b){x:[1,2]}"), 1), Mq(S("sum(c.d) by (g) * 2"), 2), Mq(S("sum("), 1), SetField(Mq(Ts1, 1), 2, None)}
Texts == {"sum(a.b)", "max(`d:t/x@s`){x:y AND NOT z:\"1 2\"} by (p, q)", "(sum(a.b) + avg(c.d){x:[1,2]}){y:z} by g", "quantiles(0.5, 0.9)(a.b){(x:1 OR y:2)}", "apdex(sum(a.b){x:1}, 500)", "sum(a.b", "sum(a.b){x}", "-sum(a.b) * 2", "topK(3)(a.b){x:\"w*\"}",
          \* sentences of the grammar that mean nothing
          "$a", "sum($a){x:y}", "sum(a.b) + $c", "sum(a.b){x:$y} by g", "1 + 2", "f(1)"}
Rq(q, f, p) == N("request", "", <<S("ds"), S("app"), q, f, S(p), DictN(<<Kv("t", S(p))>>)>>)
Fl(a, b) == N("flags", "", <<a, b, None, a, None, b>>)
Dq(cc) == N("dq", "", <<S("st"), DictN(cc)>>)
Reqs == {Rq(Qok, None, "p"), Rq(Qtot, None, "p"), Rq(Mq(Ts1, 1), Fl(True, False), "q"), Rq(Mq(Fo2, 3), Fl(None, True), "r"), Rq(Dq(<<Kv("a", L(<<IntN(1)>>))>>), Fl(False, None), "s"), Rq(Dq(<<Kv("a", L(<<>>))>>), None, "s"), Rq(Qj, Fl(True, True), "p"), SetField(Rq(Qok, None, "p"), 1, S("a b"))}
Lg(kvs) == DictN(kvs)
Bodies == {<<Lg(<<Kv("selected_columns", L(<<S("a")>>))>>), "events">>,
           <<Lg(<<Kv("aggregations", L(<<L(<<S("count()"), S(""), S("c")>>)>>)), Kv("groupby", L(<<S("a")>>)), Kv("project", L(<<IntN(2), IntN(1)>>)), Kv("totals", True)>>), "events">>,
           <<Lg(<<Kv("conditions", L(<<L(<<S("a"), S("="), IntN(1)>>), L(<<L(<<S("b"), S("="), S("x")>>), L(<<S("c"), S("="), S("y")>>)>>)>>)), Kv("from_date", S("2020-01-01T00:00:00")), Kv("orderby", L(<<S("-a")>>)), Kv("selected_columns", L(<<S("a"), L(<<S("f"), L(<<S("b")>>), S("`z`")>>)>>)), Kv("to_date", S("2020-01-02T00:00:00")), Kv("turbo", True)>>), "sessions">>,
           <<Lg(<<Kv("organization", L(<<IntN(1)>>)), Kv("selected_columns", L(<<S("bad name!")>>))>>), "events">>,
           <<Lg(<<Kv("conditions", L(<<L(<<S("a"), S("??"), IntN(1)>>)>>)), Kv("selected_columns", L(<<S("a")>>))>>), "discover">>}
Agg(f, p) == Fn(f, p)
NoAl == N("set", "", <<>>)
Al == N("set", "", <<S("al")>>)
Req(q) == C("required", <<q>>)
EvReq == EntityN("events", None, None, None)
Tm(c, a, b) == <<CondN(Col(c), "GTE", DtN(2024, 1, 1, 0, 0, 0, 0, None)), CondN(Col(c), "LT", DtN(2024, 1, 2, 0, 0, 0, 0, None))>> \o (IF a THEN <<CondN(Col("project_id"), "EQ", IntN(1))>> ELSE <<>>) \o (IF b THEN <<CondN(Col("org_id"), "IN", L(<<IntN(1)>>))>> ELSE <<>>)

\* Lookalikes: calls on objects that Python takes for equal, or that differ in little, and that must not be taken for each other.
\* Every ordered pair of such a family runs in a process of its own.
Ones == {IntN(1), True, Flt("1.0")}
Naughts == {IntN(0), False, Flt("0.0"), Flt("-0.0")}
W(c) == Where(Q0(E0), <<c>>)
LookQ(i, v) == CASE i = 1 -> W(CondN(A, "EQ", v)) [] i = 2 -> W(CondN(A, "IN", TupN(<<v, IntN(2)>>))) [] i = 3 -> W(OrN(<<CondN(A, "EQ", v), CondN(A, "EQ", IntN(2))>>))
                 [] i = 4 -> Qs(E0, <<Fn("f1", <<A, v>>)>>) [] i = 5 -> Qs(E0, <<Fn("f1", <<TupN(<<TupN(<<v>>), S("x")>>)>>)>>) [] i = 6 -> Qs(E0, <<Cfn("f1", TupN(<<v>>), TupN(<<A>>), None)>>)
                 [] i = 7 -> W(CondN(Fn("f1", TupN(<<A, v>>).c), "GT", v)) [] i = 8 -> W(AndN(<<CondN(A, "EQ", v), CondN(A, "LT", IntN(2))>>))
Dm2 == DmN(<<Scol("zz", FALSE), Scol("timestamp", FALSE)>>, Scol("timestamp", FALSE))
EDm2 == EntityN("events", None, None, Dm2)
EDmS == EntityN("events", S("e"), Flt("0.5"), Dm)
Look(g) ==
    CASE g = 1 -> {C("serialize", <<LookQ(i, v)>>) : i \in {1, 2, 3, 4}, v \in Ones}
      [] g = 2 -> {C("print", <<LookQ(i, v)>>) : i \in {5, 6, 7, 8}, v \in Ones}
      [] g = 3 -> {C("serialize", <<LookQ(i, v)>>) : i \in {1, 2, 5, 6}, v \in Naughts}
      [] g = 4 -> {C("serialize", <<Qs(E0, <<x>>)>>) : x \in {Cfn("f1", L(<<IntN(1)>>), L(<<A>>), al) : al \in {None, S("x"), S("y")}} \cup {FnA("f1", <<A>>, "x"), FnA("f1", <<A>>, "y"), Fn("f1", <<A>>), AliasedN(A, S("x")), AliasedN(A, S("y")), A, ColE("a", Ev), ColE("a", Tx), Cfn("f1", None, L(<<A>>), None)}}
      [] g = 5 -> {C(op, <<Qs(e, <<x>>)>>) : op \in {"validate", "serialize"}, e \in {EDm, EDm2, E0, EDmS}, x \in {A, Col("zz"), Col("timestamp")}}
      [] g = 6 -> {C("serialize", <<Mq(TsN(M1, "q", L(<<v>>), None, None), 1)>>) : v \in {IntN(1), Flt("1.0"), S("1")}} \cup {C("print", <<Mq(FormulaN("plus", <<Ts1, v>>, None, None, None), 2)>>) : v \in {IntN(1), Flt("1.0"), IntN(0), Flt("0.0")}}
                  \cup {C("serialize", <<SetField(Mq(Ts1, 1), 2, DtN(2024, 1, 1, h, 0, 0, 0, IntN(3600 * h)))>>) : h \in {0, 1, 2}} \cup {C("serialize", <<SetField(Mq(Ts1, 1), 9, DictN(<<Kv("m", v)>>))>>) : v \in Ones} \cup {C("serialize", <<SetField(Mq(Ts1, 1), 5, N("scope", "", <<L(<<IntN(1)>>), L(<<IntN(11)>>), u>>))>>) : u \in {None, S("u"), S("U")}}
                  \cup {C("serialize", <<Mq(S(t), 1)>>) : t \in {"sum(a.b)*1", "sum(a.b)*1.0", "sum(a.b) * 1", "sum(a.b){x:1}", "sum(a.b){x:\"1\"}", "sum(a.b){X:1}", "sum(a.b) "}}
      [] g = 7 -> {C("to_dict", <<SetField(Rq(Qok, None, "p"), 6, DictN(<<Kv("t", v)>>))>>) : v \in Ones \cup {S("1")}} \cup {C("json", <<Rq(Dq(<<Kv("a", L(<<v, IntN(2)>>))>>), Fl(None, b), "p")>>) : v \in Ones, b \in {None, False}} \cup {C("serialize", <<Dq(<<Kv("a", L(<<v>>))>>)>>) : v \in Ones \cup Naughts}
                  \cup {C("print", <<Rq(W(CondN(A, "EQ", v)), Fl(b, None), "p")>>) : v \in Ones, b \in {True, False, None}}
      [] g = 8 -> {C("legacy", <<Lg(<<Kv("conditions", L(<<L(<<S("a"), S("="), v>>)>>)), Kv("selected_columns", L(<<S("a")>>))>>), S(e)>>) : v \in Ones \cup Naughts \cup {S("1"), S("'1'")}, e \in {"events", "sessions"}}
                  \cup {C("legacy", <<Lg(<<Kv("conditions", L(<<L(<<S(c), S("="), S("2020-01-01T00:00:00")>>)>>)), Kv("selected_columns", L(<<S("a")>>))>>), S("events")>>) : c \in {"a", "release", "tags[a]"}}
      [] g = 9 -> {C("parse", <<S(t)>>) : t \in {"sum(a.b)*1", "sum(a.b)*1.0", "sum(a.b) * 1", "sum(a.b){x:1}", "sum(a.b){x:\"1\"}", "sum(a.b){X:1}", "sum(A.b)", "SUM(a.b)", "sum(a.b){x:[1]}", "sum(a.b){x:1*}", "sum(a.b){!x:1}", "sum(a.b) by x", "sum(a.b) by (x)", "sum(a.b) by (x, x)", "sum(a.b)\n*\t1", "sum(a.b)* 1 ", "q(1)(a.b)", "q(1.0)(a.b)", "q(\"1\")(a.b)"}}
      [] g = 10 -> {C("find", <<Qs(E0, <<N("fn", "", <<S("g1"), TupN(<<x, Cfn("f1", TupN(<<v>>), TupN(<<A>>), al)>>), None>>), Cfn("f1", TupN(<<v>>), TupN(<<x>>), al)>>), S("CurriedFunction")>>) : x \in {A, Col("b")}, v \in Ones, al \in {None, S("x")}}
                   \cup {C("isagg", <<FnA("plus", <<Col(c), v>>, "x"), a>>) : c \in {"al", "b"}, v \in Ones, a \in {NoAl, Al}} \cup {C("hascol", <<c, Fn("f1", <<d>>)>>) : c \in {A, ColE("a", Ev), ColE("a", Tx)}, d \in {A, ColE("a", Ev), ColE("a", EntityN("events", S("e"), None, Dm))}}
NPool == 9
McGroups == NPool + 10
McCases(g) == IF g > NPool THEN Look(g - NPool) ELSE
    CASE g = 1 -> {C("validate", <<q>>) : q \in {Qok, Qtot, Qgrp, Qnosel, Qj, Qjbad, Qjbad2, Qs1, Qs1bad, Qdm, Qdmbad, Qent}} \cup {C("new", <<q>>) : q \in {Qs2bad, Qs1, Qs2}}
      [] g = 2 -> {C("serialize", <<q>>) : q \in {Qok, Qj, Qj2, Qs2, Qent, Qbig, QRaise, OrQ(A, 3), OrQ(Col("tags[k]"), 4)}} \cup {C("print", <<q>>) : q \in {Qj, Qs1, Qbig, QRaise}}
      [] g = 3 -> {C("serialize", <<q>>) : q \in Mqs} \cup {C("print", <<q>>) : q \in {Mq(Fo2, 3), Mq(Ts2, 2)}}
      [] g = 4 -> {C("parse", <<S(t)>>) : t \in Texts}
      [] g = 5 -> {C("to_dict", <<r>>) : r \in Reqs} \cup {C("print", <<Rq(Mq(Ts2, 2), Fl(True, None), "z")>>)}
      [] g = 6 -> {C("legacy", <<b[1], S(b[2])>>) : b \in Bodies}
      [] g = 7 -> {C("find", <<Qs1, S("Column")>>), C("find", <<Qj, S("Column")>>), C("find", <<Qbig, S("Column")>>), C("find", <<Qbig, S("AliasedExpression")>>), C("isagg", <<Agg("sum", <<A>>), NoAl>>), C("isagg", <<Agg("plus", <<Col("al")>>), Al>>), C("isagg", <<Agg("plus", <<Col("al")>>), NoAl>>), C("aggname", <<S("plus(countIf(x), 1)"), NoAl>>), C("hascol", <<A, Agg("f1", <<A>>)>>), C("hascol", <<A, Agg("f1", <<Col("b")>>)>>),
                   Req(Where(Q0(E0), Tm("timestamp", TRUE, TRUE))), Req(Where(Q0(E0), Tm("timestamp", FALSE, TRUE))), Req(Q0(EDm)), Req(Where(Q0(EDm), Tm("timestamp", FALSE, FALSE) \o <<C1>>))}
      [] g = 8 -> {C("set", <<Qok, S("select"), L(<<A>>)>>), C("set", <<Qok, S("limit"), IntN(0)>>), C("set", <<Qok, S("match"), Qtot>>), C("set", <<Qj, S("where"), L(<<CondN(ColE("a", Ev), "EQ", IntN(1))>>)>>), C("set", <<Mq(Ts1, 1), S("query"), Fo1>>), C("set", <<Mq(Ts1, 1), S("query"), S("sum(a.b) + 1")>>), C("set", <<Ts1, S("filters"), F1>>), C("set", <<Ts2, S("aggregate"), S("max"), None>>), C("set", <<Fo1, S("parameters"), L(<<Ts2, Ts2>>)>>),
                   C("new", <<Col("tags[x]")>>), C("new", <<Col("bad name!")>>), C("new", <<Fn("f1", <<A, L(<<Count>>)>>)>>), C("new", <<OrN(<<C1>>)>>), C("new", <<J>>), C("new", <<Roll(IntN(60), IntN(10))>>), C("new", <<Roll(IntN(9), IntN(7))>>), C("new", <<CondN(A, "IN", L(<<IntN(1), A>>))>>)}
      [] g = 9 -> {C("validate", <<x>>) : x \in {Mq(Ts1, 1), Mq(Fo2, 3), Mq(FoBad, 1), Mq(S("sum("), 1), Fo1, FoBad, Dq(<<Kv("a", L(<<IntN(1)>>))>>), Dq(<<>>), Rq(Qok, None, "p"), Rq(Qtot, None, "p"), Fl(IntN(1), None)}} \cup {C("serialize", <<Dq(<<Kv("a", L(<<IntN(1)>>)), Kv("b", L(<<S("x")>>))>>)>>), C("serialize", <<Dq(<<Kv("a", L(<<IntN(1)>>)), Kv("b", L(<<>>))>>)>>)}
------------------------------------------------------------------------------
\* In every family there are outcomes to confuse
Outcome(c) == IF OpErrs(c[1], c[2]) # {} THEN Str("raises") ELSE OpExample(c[1], c[2])
LawTwins == (last # <<>> /\ last[1] = "input") => Cardinality({Outcome(c) : c \in McCalls(heap)}) > 1
LawDefined == Done => OpDefined(last[1], last[2])
Laws == LawTwins /\ LawDefined
==============================================================================
