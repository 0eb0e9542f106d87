--------------------------------- MODULE McOr ---------------------------------
(***************************************************************************)
(* C03: ORs of equalities and everything that resembles them.               *)
(***************************************************************************)
EXTENDS Mc

E1 == Ent("events", "e")
E2 == Ent("events", "f")
LhsS == <<Col("a"), Col("b"), Col("A"), Col("tags[x]"), Col("tags[y]"), Fn("f1", <<Col("a")>>), Fn("f1", <<Col("b")>>), Fn("f1", <<IntN(1)>>), Fn("f1", <<True>>),
          Fn("f1", <<Flt("1.0")>>), Fn("f1", <<Str("1")>>), FnA("f1", <<Col("a")>>, "x"), FnA("f1", <<Col("a")>>, "y"), Cfn("f1", ListN(<<IntN(1)>>), ListN(<<Col("a")>>), None),
          Cfn("f1", ListN(<<True>>), ListN(<<Col("a")>>), None), Cfn("f1", None, ListN(<<Col("a")>>), None), ColE("a", E1), ColE("a", E2), Fn("f1", <<ColE("a", E1)>>), Fn("f1", <<ColE("a", E2)>>)>>
ValS == <<IntN(1), IntN(2), True, Flt("1.0"), Str("x"), Str("1"), Str("x*"), None, Col("b"), Col("a"), Fn("f2", <<>>), ListN(<<IntN(1), IntN(2)>>), TupN(<<>>), DtN(2024, 1, 1, 0, 0, 0, 0, IntN(3600)), Str("it's")>>
OpsS == OpNames \ UnaryOps
NL == Len(LhsS)
NV == Len(ValS)
Cx(i, o, j) == CondN(LhsS[i], o, ValS[j])
A1 == CondN(Col("a"), "EQ", IntN(1))
A2 == CondN(Col("a"), "EQ", IntN(2))
AX == CondN(Col("a"), "EQ", Str("x"))
B1 == CondN(Col("b"), "EQ", IntN(1))
AN == CondN(Col("a"), "NEQ", IntN(3))
AI == CondN(Col("a"), "IN", ListN(<<IntN(4), IntN(5)>>))
AZ == CondN(Col("a"), "IS_NULL", None)
Mk4(k, cs) == CASE k = 1 -> OrN(cs) [] k = 2 -> BcondN("OR", cs) [] k = 3 -> AndN(cs) [] k = 4 -> BcondN("AND", cs) [] k = 5 -> N("or", "", <<TupN(cs)>>) [] k = 6 -> N("bcond", "", <<BopN("OR"), TupN(cs)>>)
\* conditions, and how they appear in a clause
Pairs1 == {Mk4(k, <<Cx(i, "EQ", 1), Cx(j, "EQ", 2)>>) : k \in {1, 2, 3}, i \in 1..NL, j \in 1..NL}
Pairs2 == {Mk4(k, <<CondN(Col("a"), o, IntN(1)), CondN(Col("a"), p, IntN(2))>>) : k \in 1..4, o \in OpsS, p \in OpsS}
Pairs3 == {Mk4(k, <<Cx(i, "EQ", j), Cx(i, "EQ", l)>>) : k \in {1, 2}, i \in {1, 6}, j \in 1..NV, l \in 1..NV}
Leaves == <<A1, A2, AX, B1, AN, AI, AZ>>
Triples == {Mk4(k, <<Leaves[i], Leaves[j], Leaves[l]>>) : k \in 1..6, i \in 1..7, j \in 1..7, l \in 1..7}
Nest == {Mk4(k, <<Mk4(l, <<A1, A2>>), x>>) : k \in 1..6, l \in 1..6, x \in {AX, B1, Mk4(1, <<AX, A1>>)}} \cup {Mk4(k, <<x, Mk4(l, <<A1, Mk4(m, <<A2, AX>>)>>)>>) : k \in 1..4, l \in 1..4, m \in 1..4, x \in {AX, B1}}
Many(n, k) == Mk4(k, [i \in 1..n |-> CondN(Col("a"), "EQ", IntN((i * i) \div 3))])
ManyBut(n, p, c) == OrN([i \in 1..n |-> IF i = p THEN c ELSE CondN(Col("a"), "EQ", IntN(i))])
Sizes == {2, 3, 4, 5, 8, 9, 10, 11, 16, 20, 21, 50, 51, 100, 101}
Long == {Many(n, k) : n \in Sizes, k \in {1, 2, 5}} \cup {ManyBut(n, p, c) : n \in {3, 5, 10, 20}, p \in {1, 2, 3, 5, 10, 20}, c \in {B1, AN, AI, AZ, OrN(<<A1, A2>>), A1}}
\* several conditions in one clause
O1 == OrN(<<A1, A2>>)
O2 == BcondN("OR", <<B1, CondN(Col("b"), "EQ", Str("y"))>>)
Items == <<O1, O2, A1, AndN(<<O1, B1>>), OrN(<<A1, B1>>), OrN(<<AN, A1>>), OrN(<<AX, A1>>)>>
Lists == {<<Items[i], Items[j]>> : i \in 1..7, j \in 1..7} \cup {<<Items[i], Items[j], Items[l]>> : i \in 1..7, j \in 1..7, l \in 1..7}
J == JoinN(<<RelN(E1, "r", E2)>>)
JoinConds == {Mk4(k, <<CondN(LhsS[i], "EQ", IntN(1)), CondN(LhsS[j], "EQ", IntN(2))>>) : k \in {1, 2}, i \in 17..20, j \in 17..20}

\* metrics: the same in the filters
M == MetricN(Str("m.x"), None)
Ts(f) == TsN(M, "sum", None, f, None)
Mq(x) == N("mq", "", <<x, DtN(2024, 1, 1, 0, 0, 0, 0, None), DtN(2024, 1, 2, 0, 0, 0, 0, None), N("rollup", "", <<IntN(60), None, None, IntN(60)>>),
                       N("scope", "", <<ListN(<<IntN(1)>>), ListN(<<IntN(1)>>), None>>), None, None, None, DictN(<<>>)>>)
S1 == CondN(Col("a"), "EQ", Str("1"))
S2 == CondN(Col("a"), "EQ", Str("2"))
T1 == CondN(Col("b"), "EQ", Str("1"))
SW == CondN(Col("a"), "LIKE", Str("x*"))
SI == CondN(Col("a"), "IN", ListN(<<Str("3")>>))
SN == CondN(Col("a"), "NEQ", Str("1"))
MLeaves == <<S1, S2, T1, SW, SI, SN>>
MConds == {Mk4(k, <<MLeaves[i], MLeaves[j]>>) : k \in 1..4, i \in 1..6, j \in 1..6} \cup {Mk4(k, <<MLeaves[i], MLeaves[j], MLeaves[l]>>) : k \in {1, 2}, i \in 1..6, j \in 1..6, l \in 1..6}
          \cup {Mk4(k, <<Mk4(l, <<S1, S2>>), x>>) : k \in 1..4, l \in 1..4, x \in {S1, T1, OrN(<<S2, S1>>)}} \cup {OrN([i \in 1..n |-> CondN(Col("a"), "EQ", Str("v" \o ToString(n - i)))]) : n \in Sizes}
In(fs, w) == CASE w = 1 -> Ts(ListN(fs)) [] w = 2 -> FormulaN("plus", <<Ts(None), Flt("1.0")>>, None, ListN(fs), None) [] w = 3 -> FormulaN("plus", <<Ts(ListN(fs)), Ts(ListN(fs))>>, None, None, None)
               [] w = 4 -> FormulaN("f1", <<FormulaN("minus", <<Ts(None), Ts(ListN(fs))>>, None, ListN(fs), None)>>, None, ListN(<<T1>>), None)
MOr1 == OrN(<<S1, S2>>)
MItems == <<MOr1, BcondN("OR", <<T1, CondN(Col("b"), "EQ", Str("2"))>>), S1, AndN(<<MOr1, T1>>), OrN(<<S1, T1>>)>>
MLists == {<<MItems[i], MItems[j]>> : i \in 1..5, j \in 1..5}
McGroups == 12
Wh(S) == {C("serialize", <<Where(Q0(E0), <<c>>)>>) : c \in S}
McCases(g) ==
    CASE g = 1 -> Wh(Pairs1)
      [] g = 2 -> Wh(Pairs2)
      [] g = 3 -> Wh(Pairs3)
      [] g = 4 -> Wh(Triples)
      [] g = 5 -> Wh(Nest)
      [] g = 6 -> Wh(Long) \cup {C("serialize", <<Qs(Where(Q0(E0), <<c>>), <<Count>>)>>) : c \in Nest}
      [] g = 7 -> {C("serialize", <<Where(Q0(E0), l)>>) : l \in Lists}
      [] g = 8 -> {C("serialize", <<With(Q0(E0), "having", ListN(<<c>>))>>) : c \in Nest} \cup {C("serialize", <<With(Q0(E0), "having", ListN(l))>>) : l \in {x \in Lists : Len(x) = 2}}
      [] g = 9 -> {C("serialize", <<Where(Q0(J), <<c>>)>>) : c \in JoinConds} \cup {C("serialize", <<With(Where(Q0(E0), <<O1>>), "having", ListN(<<c>>))>>) : c \in Nest}
                  \cup {C("serialize", <<Where(Qs(Qs(E0, <<Col("a"), Col("b")>>), <<Count>>), l)>>) : l \in {x \in Lists : Len(x) = 2}}
      [] g = 10 -> {C("serialize", <<Mq(In(<<c>>, w))>>) : c \in MConds, w \in {1, 2}}
      [] g = 11 -> {C("serialize", <<Mq(In(l, w))>>) : l \in MLists, w \in 1..4}
      [] g = 12 -> {C("print", <<Mq(In(<<c>>, w))>>) : c \in MConds, w \in {1, 4}}

------------------------------------------------------------------------------
(* Laws *)
Q == last[2][1]
\* whatever is rewritten, every row is judged as before (three-valued)
SmallCond(cs) == Cardinality(UNION {AtomsOf(cs[i]) : i \in 1..Len(cs)}) <= 6
LawMeaning == (Done /\ G \in {1, 2, 3, 4, 5, 7} /\ SmallCond(QWhere(Q).c)) => \A ds \in Choices(QWhere(Q).c) : SameMeaning(QWhere(Q).c, ds)
MF == Q.c[1].c[4].c
LawFilters == (Done /\ G \in {10, 11} /\ ~IsNone(Q.c[1].c[4]) /\ SmallCond(MF)) => \A ds \in Choices(MF) : SameMeaning(MF, ds)
\* having is never touched: its text is the plain one
LawHaving == (Done /\ G = 8) => SerializedTexts(Q) = {QueryText(Q, " ")}
Laws == LawMeaning /\ LawFilters /\ LawHaving
==============================================================================
