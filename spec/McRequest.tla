------------------------------- MODULE McRequest -------------------------------
(***************************************************************************)
(* C14: requests.  C17: delete queries, bare and in requests.               *)
(***************************************************************************)
EXTENDS Mc

AnyV == {None, True, False, IntN(0), IntN(1), Flt("1.5"), Str(""), Str("x"), Bytes("x"), DtN(2024, 1, 1, 0, 0, 0, 0, None), ListN(<<>>), ListN(<<Str("x")>>), TupN(<<IntN(1)>>), DictN(<<>>), DictN(<<Kv("a", IntN(1))>>), Obj, Col("a"), CondN(Col("a"), "EQ", Str("b")), OpN("EQ"), N("set", "", <<IntN(1)>>)}
Fl(a, b, c, d, e, f) == N("flags", "", <<a, b, c, d, e, f>>)
NoFlags == Fl(None, None, None, None, None, None)
Tri == {None, True, False}
AllFlags == {Fl(a, b, c, d, e, f) : a \in Tri, b \in Tri, c \in Tri, d \in Tri, e \in Tri, f \in Tri}
BadFlags == {SetField(f, i, x) : f \in {NoFlags, Fl(True, False, True, None, False, True)}, i \in 1..6, x \in AnyV}
Qn == N("query", "", <<E0, ListN(<<Count>>), ListN(<<Col("a")>>), None, ListN(<<OrN(<<CondN(Col("a"), "EQ", Str("x\n\"y")), CondN(Col("a"), "EQ", IntN(2))>>)>>), None, None, None, OneN("limit", IntN(5)), None, None, None>>)
QBad == Qs(E0, <<>>)
QTot == With(Q0(E0), "totals", OneN("totals", True))
T0 == TsN(MetricN(Str("a.b"), None), "sum", None, ListN(<<CondN(Col("x"), "EQ", Str("y \"z\""))>>), ListN(<<Col("g")>>))
R0 == N("rollup", "", <<IntN(60), None, None, IntN(60)>>)
S0 == N("scope", "", <<ListN(<<IntN(1)>>), ListN(<<IntN(11)>>), Str("uc")>>)
Mq0 == N("mq", "", <<T0, DtN(2024, 1, 1, 0, 0, 0, 0, None), DtN(2024, 1, 2, 0, 0, 0, 0, IntN(3600)), R0, S0, OneN("limit", IntN(3)), None, OneN("extrap", False), DictN(<<Kv("a.b", IntN(1))>>)>>)
MqS == SetField(Mq0, 1, Str("sum(a.b) + 1"))
MqBad == SetField(Mq0, 2, None)
MqGt == SetField(Mq0, 1, SetField(T0, 4, ListN(<<CondN(Col("x"), "GT", IntN(1))>>)))
MqMap == SetField(Mq0, 9, None)
MqForm == SetField(Mq0, 1, FormulaN("plus", <<T0, IntN(1)>>, None, None, None))
Dq(cc) == N("dq", "", <<Str("storage"), cc>>)
D(kvs) == DictN(kvs)
Dq0 == Dq(D(<<Kv("a", ListN(<<IntN(1), Str("x")>>)), Kv("b", ListN(<<Str("y")>>))>>))
DqBad == Dq(D(<<>>))
DqBad2 == Dq(D(<<Kv("a", ListN(<<IntN(1)>>)), Kv("b", ListN(<<>>))>>))
Queries == {Qn, Q0(E0), QBad, QTot, Mq0, MqS, MqBad, MqGt, MqMap, MqForm, Dq0, DqBad, DqBad2}
Good == {Qn, Mq0, MqS, Dq0}
Rq(ds, app, q, f, pa, ti) == N("request", "", <<ds, app, q, f, pa, ti>>)
Ti0 == DictN(<<Kv("org", IntN(1)), Kv("ref", Str("r"))>>)
R1(q) == Rq(Str("ds"), Str("app"), q, NoFlags, Str("<api>"), Ti0)
Ids == {Str(s) : s \in {"", "a", "A", "1", "a b", "a-b", "a_b", "a.b", "a:b", "a/b", "a+b", "a*b", "[a]", "(a)", "a;", "a\n", "\na", " a", "a ", "é", "a'b", "a\"b", "$a", "a@b", "a,b", "a#", "-", "<unknown>", "a{b}", "a\\b", "a=b", "a%b", "a!b", "a?b", "a&b", "a^b", "a|b", "a~b", "`a`", "a\tb"}} \cup AnyV
Parents == {Str(s) : s \in {"", " ", "<unknown>", "a b", "a\nb", "é", "\"", "x"}} \cup AnyV
Tis == {DictN(<<>>), Ti0, DictN(<<Kv("a", None)>>), DictN(<<Kv("a", True), Kv("b", False)>>), DictN(<<Kv("a", ListN(<<IntN(1), Str("2")>>)), Kv("b", DictN(<<Kv("c", Flt("1.5"))>>))>>), DictN(<<Kv("", Str("")), Kv("é", Str("é\n\"\\"))>>), DictN(<<Kv("a", Str("1")), Kv("b", IntN(1))>>)} \cup AnyV
       \cup {DictN(<<Kv("a", x), Kv("b", IntN(1))>>) : x \in AnyV \cup {N("obj", "dict", <<>>), ListN(<<N("obj", "dict", <<>>)>>), ListN(<<IntN(1), Obj>>)}}
Ops == {"to_dict", "json", "json_mql", "str", "print"}
All(S) == {C(op, <<r>>) : op \in Ops, r \in S}
Td(S) == {C("to_dict", <<r>>) : r \in S} \cup {C("validate", <<r>>) : r \in S}
ByField == {SetField(R1(q), 1, x) : q \in Good, x \in Ids} \cup {SetField(R1(q), 2, x) : q \in Good, x \in Ids} \cup {SetField(R1(q), 5, x) : q \in Good, x \in Parents} \cup {SetField(R1(q), 6, x) : q \in Good, x \in Tis}
\* two fields at once
Pairs == {Rq(a, b, q, f, p, t) : a \in {Str("ds"), Str(""), Str("d s")}, b \in {Str("app"), Str("a$"), None}, q \in {Qn, QBad, Mq0, MqBad, Dq0, DqBad}, f \in {None, NoFlags, Fl(True, False, None, None, None, False), Fl(IntN(1), None, None, None, None, None)}, p \in {Str("p"), Str("")}, t \in {Ti0, None, DictN(<<>>)}}
\* C17
Vals == {ListN(<<>>), ListN(<<IntN(1)>>), ListN(<<IntN(1), IntN(1)>>), ListN(<<Str("")>>), ListN(<<None>>), ListN(<<Str("a"), IntN(2), Str("a")>>), ListN(<<ListN(<<>>)>>), ListN(<<IntN(0)>>), ListN(<<False>>), ListN(<<IntN(3), IntN(1), IntN(2)>>), TupN(<<>>), TupN(<<IntN(1)>>), TupN(<<Str("b"), Str("a")>>), ListN(<<Flt("1.5")>>), ListN(<<Str("x\n'y"), Str("é")>>), N("set", "", <<>>)}
Names == {"a", "b", "", "a b", "é"}
Dqs1 == {Dq(D(<<Kv(n, v)>>)) : n \in Names, v \in Vals}
Dqs2 == {Dq(D(<<Kv("a", v), Kv("b", w)>>)) : v \in Vals, w \in Vals}
Dqs3 == {Dq(D(<<Kv("a", v), Kv("b", w), Kv("c", u)>>)) : v \in Vals, w \in {ListN(<<IntN(1)>>), ListN(<<>>)}, u \in {ListN(<<Str("z")>>), ListN(<<>>), TupN(<<>>)}} \cup {Dq(D(<<>>))}
Wide == {Dq(D([i \in 1..9 |-> Kv("c" \o ToString(i), IF i = j THEN v ELSE ListN(<<IntN(i)>>))])) : j \in 1..9, v \in {ListN(<<>>), ListN(<<IntN(0)>>), TupN(<<>>)}} \cup {Dq(D(<<Kv("a", ListN([i \in 1..n |-> IntN((i * 7) \div 3)]))>>)) : n \in {1, 2, 10, 50, 100, 101, 200}}
Dser(S) == {C("serialize", <<d>>) : d \in S} \cup {C("validate", <<d>>) : d \in S}
Dreq(S) == {C(op, <<R1(d)>>) : op \in {"to_dict", "json", "print"}, d \in S}
\* texts that are nearly the same, and long ones
NearT == {"a", "A", " a", "a ", "a\t", "\na", "a\n", "a.b", "a_b", "a-b", "a[b]", "aa", "0", "00", "1", "1.0", "None", "null", "true", "True", "é", "É", "'a'", "\"a\"", "a'", "a\\", "%s", "{}", "<a>", "a,b"} \cup {Rep("ab", n) : n \in {16, 31, 32, 33, 64, 100, 128, 129, 500, 512, 513, 2048, 2500}}
NearKeys == {D(<<Kv(a, ListN(<<Str(b)>>)), Kv(b, ListN(<<Str(a), Str(b), Str(a)>>))>>) : <<a, b>> \in {t \in NearT \X NearT : t[1] # t[2]}}
NearDq == {Dq(d) : d \in NearKeys} \cup {Dq(D([i \in 1..n |-> Kv("c" \o ToString(n - i), ListN(<<IntN(i), IntN(i), IntN(n - i)>>))])) : n \in {1, 10, 64, 65, 100, 101, 128, 129, 256, 257, 1000, 1001}}
          \cup {Dq(D(<<Kv("a", ListN([i \in 1..n |-> IntN(n - i)])), Kv("b", ListN([i \in 1..n |-> Str("x")]))>>)) : n \in {3, 64, 65, 100, 101, 128, 129, 255, 256, 257, 512, 513, 1000, 1001, 1025}}
          \cup {SetField(Dq0, 1, Str(t)) : t \in NearT}
NearReq == {Rq(Str("ds"), Str("app"), Qn, NoFlags, Str(a), DictN(<<Kv(b, Str(a)), Kv(a, Str(b))>>)) : <<a, b>> \in {t \in NearT \X NearT : t[1] # t[2]}} \cup {SetField(SetField(R1(q), 5, Str(t)), 6, DictN(<<Kv(t, ListN(<<Str(t), DictN(<<Kv(t, Str(t))>>)>>))>>)) : q \in Good, t \in NearT}
           \cup {SetField(R1(q), i, Str(t)) : q \in Good, i \in {1, 2, 5}, t \in NearT} \cup {SetField(R1(q), 6, DictN([i \in 1..n |-> Kv("t" \o ToString(n - i), IntN(i))])) : q \in Good, n \in {1, 2, 5, 10, 11, 16, 17, 32, 33, 64, 65, 100, 101, 256, 257}}
McGroups == IF Prop = "C14" THEN 6 ELSE 5
McCases(g) ==
    CASE Prop = "C14" -> (CASE g = 1 -> {C("to_dict", <<SetField(R1(Qn), 4, f)>>) : f \in AllFlags} \cup {C("json", <<SetField(R1(Dq0), 4, f)>>) : f \in AllFlags}
                            [] g = 2 -> {C("print", <<SetField(R1(Mq0), 4, f)>>) : f \in AllFlags} \cup All({SetField(R1(Qn), 4, f) : f \in BadFlags \cup AnyV})
                            [] g = 3 -> All({R1(q) : q \in Queries}) \cup All({SetField(R1(Qn), 3, x) : x \in AnyV}) \cup {C("validate", <<R1(q)>>) : q \in Queries}
                            [] g = 4 -> Td(ByField) \cup {C("json", <<r>>) : r \in ByField}
                            [] g = 5 -> {C("to_dict", <<r>>) : r \in Pairs} \cup {C("str", <<r>>) : r \in Pairs}
                            [] g = 6 -> {C("to_dict", <<r>>) : r \in NearReq})
      [] Prop = "C17" -> (CASE g = 1 -> Dser(Dqs1) \cup Dreq(Dqs1)
                            [] g = 2 -> Dser(Dqs2) \cup Dreq(Dqs2)
                            [] g = 3 -> Dser(Dqs3) \cup Dreq(Dqs3)
                            [] g = 4 -> Dser(Wide) \cup Dreq(Wide)
                            [] g = 5 -> {C("serialize", <<d>>) : d \in NearDq} \cup {C("json", <<R1(d)>>) : d \in {x \in NearDq : Len(x.c[2].c) # 2}})
------------------------------------------------------------------------------
(* Laws *)
X == last[2][1]
\* no request goes out with a query that would be refused alone
LawRefused == (Done /\ X.k = "request" /\ AnyQueryErrs(X.c[3]) # {}) => RequestSerErrs(X) # {}
\* nothing is sent without a restriction
Restricts(d) == d.c[2].k = "dict" /\ d.c[2].c # <<>> /\ \A i \in 1..Len(d.c[2].c) : Len(Elems(d.c[2].c[i].c[1])) > 0
LawDelete == (Done /\ X.k = "dq" /\ DqErrs(X) = {}) => Restricts(X)
\* the flags that are set, and only those, are in the body
Keys(d) == {d.c[i].v : i \in 1..Len(d.c)}
LawFlags == (Done /\ X.k = "request" /\ RequestSerErrs(X) = {} /\ X.c[4].k = "flags") =>
    \A b \in RequestDicts(X) : Keys(b) \cap {FlagNames[i] : i \in 1..6} = {FlagNames[i] : i \in {j \in 1..6 : ~IsNone(X.c[4].c[j])}} /\ (("mql_context" \in Keys(b)) <=> (X.c[3].k = "mq")) /\ (("dataset" \in Keys(b)) <=> (X.c[3].k # "dq"))
Laws == LawRefused /\ LawDelete /\ LawFlags
==============================================================================
