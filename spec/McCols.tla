------------------------------- MODULE McCols -------------------------------
(***************************************************************************)
(* Columns: every kind of match, every kind of column, every position a    *)
(* column can be in.  C06: is the query accepted; C09, C01: its text; C19:  *)
(* does a search find the column.                                           *)
(***************************************************************************)
EXTENDS Mc

Model == DmN(<<Scol("a", TRUE), Scol("b.c", FALSE), Scol("tags", FALSE), Scol("timestamp", FALSE)>>, Scol("timestamp", FALSE))
Ev == Ent("events", "e")
Tx == Ent("transactions", "t")
EvM == EntityN("events", Str("e"), None, Model)
Ev2 == Ent("events", "f")
Inner == Qs(E0, <<Col("a"), Col("tags[k]"), FnA("count", <<>>, "al"), AliasedN(Col("b"), Str("x")), Fn("max", <<Col("z")>>)>>)
Joined == JoinN(<<RelN(Ev, "r", Tx)>>)
Matches == { E0, EntityN("events", Str("e"), None, None), EntityN("events", None, None, Model), EvM,
    StorageN("events", None, None), StorageN("events", None, Model),
    Joined, JoinN(<<RelN(EvM, "r", Tx)>>), JoinN(<<RelN(Ev, "same", Ev2)>>),
    JoinN(<<RelN(Ev, "r", Tx), RelN(Tx, "s", Ent("sessions", "s"))>>),
    Inner, Qs(Inner, <<Col("a"), Col("al"), FnA("max", <<Col("al")>>, "m")>>),
    Qs(Joined, <<ColE("a", Ev), ColE("b", Tx), FnA("count", <<ColE("z", Ev)>>, "al")>>),
    Qs(EntityN("events", None, None, Model), <<Col("a"), Col("tags[k]")>>) }
Columns == { Col("a"), Col("al"), Col("tags[k]"), Col("tags[]"), Col("a[k]"), Col("tags"), Col("b.c"), Col("b"), Col("x"),
    Col("nope"), Col("nope[a]"), Col("count"), Col("max"), Col("A"), Col("e.a"), Col("timestamp"),
    ColE("a", Ev), ColE("a", Tx), ColE("b", Tx), ColE("a", Ev2), ColE("a", EvM), ColE("tags[k]", EvM), ColE("a", Ent("events", "z")),
    ColE("a", Ent("other", "e")), ColE("a", Ent("events", "t")), ColE("a", EntityN("events", Str("e"), Flt("0.5"), None)),
    ColE("nope", Ev), ColE("al", Ev) }
Fix == CondN(Fn("now", <<>>), "EQ", IntN(2))
Positions(m, c) == <<
    Qs(m, <<c>>), Qs(m, <<Count, c>>), Qs(m, <<Fn("f1", <<c>>)>>), Qs(m, <<FnA("f1", <<IntN(1), c>>, "al")>>),
    Qs(m, <<Fn("f1", <<Fn("f2", <<Fn("f3", <<c>>)>>)>>)>>),
    Qs(m, <<Fn("f1", <<ListN(<<c>>)>>)>>), Qs(m, <<Fn("f1", <<IntN(1), TupN(<<Str("s"), ListN(<<c>>)>>)>>)>>),
    Qs(m, <<Fn("f1", <<ListN(<<Fn("f2", <<c>>)>>)>>)>>), Qs(m, <<FnT("f1", TupN(<<c>>), None)>>),
    Qs(m, <<Cfn("f1", ListN(<<c>>), ListN(<<IntN(1)>>), None)>>), Qs(m, <<Cfn("f1", ListN(<<IntN(1), c>>), None, None)>>),
    Qs(m, <<Cfn("f1", ListN(<<IntN(1)>>), ListN(<<c>>), Str("al"))>>), Qs(m, <<Cfn("f1", None, ListN(<<c>>), None)>>),
    Qs(m, <<Cfn("f1", ListN(<<IntN(1)>>), ListN(<<Cfn("f2", ListN(<<c>>), None, None)>>), None)>>),
    Qs(m, <<AliasedN(c, Str("y"))>>), Qs(m, <<AliasedN(c, None)>>),
    Qs(m, <<Fn("f1", <<LamN(<<Str("i")>>, Fn("f2", <<IdN("i"), c>>))>>)>>),
    Qs(m, <<Fn("f1", <<LamN(<<Str("a")>>, Fn("f2", <<c>>))>>)>>),
    Qs(m, <<Fn("f1", <<LamN(<<Str("i"), Str("j")>>, Fn("f2", <<IdN("i"), Fn("f3", <<c>>)>>)), IntN(1)>>)>>),
    Qs(m, <<Fn("f1", <<LamN(<<Str("i")>>, Fn("f2", <<LamN(<<Str("j")>>, Fn("f3", <<c>>))>>))>>)>>),
    Qs(m, <<Fn("f1", <<LamN(<<>>, Cfn("f2", ListN(<<c>>), None, None))>>)>>),
    Q1(m, "groupby", ListN(<<c>>)), Q1(m, "groupby", ListN(<<Count, AliasedN(c, Str("y"))>>)),
    Q1(m, "groupby", ListN(<<Fn("f1", <<c>>)>>)), Q1(m, "groupby", TupN(<<c>>)),
    Q1(m, "array_join", ListN(<<c>>)), Q1(m, "array_join", ListN(<<c, c>>)),
    Q1(m, "where", ListN(<<CondN(c, "EQ", IntN(1))>>)), Q1(m, "where", ListN(<<Fix, CondN(c, "IS_NULL", None)>>)),
    Q1(m, "where", ListN(<<CondN(Fn("f1", <<c>>), "GT", IntN(1))>>)),
    Q1(m, "where", ListN(<<CondN(Fn("now", <<>>), "EQ", c)>>)),
    Q1(m, "where", ListN(<<CondN(Fn("now", <<>>), "EQ", Fn("f2", <<c>>))>>)),
    Q1(m, "where", ListN(<<CondN(Fn("now", <<>>), "IN", ListN(<<c>>))>>)),
    Q1(m, "where", ListN(<<CondN(Fn("now", <<>>), "IN", TupN(<<IntN(1), TupN(<<c, IntN(2)>>)>>))>>)),
    Q1(m, "where", ListN(<<CondN(Fn("now", <<>>), "NOT_IN", ListN(<<Str("s"), Fn("f2", <<ListN(<<c>>)>>)>>))>>)),
    Q1(m, "where", ListN(<<CondN(Cfn("f1", ListN(<<c>>), ListN(<<>>), None), "LTE", IntN(1))>>)),
    Q1(m, "where", ListN(<<AndN(<<Fix, CondN(c, "NEQ", Str("s"))>>)>>)),
    Q1(m, "where", ListN(<<OrN(<<Fix, AndN(<<CondN(Fn("now", <<>>), "LT", c), Fix>>)>>)>>)),
    Q1(m, "where", ListN(<<BcondN("OR", <<CondN(c, "EQ", IntN(1)), CondN(c, "EQ", IntN(2))>>)>>)),
    Q1(m, "where", ListN(<<BcondN("AND", <<Fix, BcondN("OR", <<Fix, CondN(Fn("f1", <<c>>), "EQ", IntN(1))>>)>>)>>)),
    Q1(m, "having", ListN(<<CondN(c, "GTE", IntN(1))>>)), Q1(m, "having", ListN(<<OrN(<<Fix, CondN(Fn("f1", <<c>>), "EQ", c)>>)>>)),
    Q1(m, "orderby", ListN(<<OrderN(c, "ASC")>>)), Q1(m, "orderby", ListN(<<OrderN(Count, "ASC"), OrderN(Fn("f1", <<c>>), "DESC")>>)),
    Q1(m, "limitby", LimitByN(<<c>>, 5)), Q1(m, "limitby", LimitByN(<<c, c>>, 5)) >>
\* only one of two columns resolves: limit by and select look at every element
Both(m, c) == << Q1(m, "limitby", LimitByN(<<Col("a"), c>>, 5)), Q1(m, "limitby", LimitByN(<<ColE("a", Ev), c>>, 5)),
    Q1(m, "limitby", LimitByN(<<c, ColE("a", Ev)>>, 5)),
    Qs(m, <<Col("a"), c>>), Qs(m, <<ColE("a", Ev), c>>), Qs(m, <<ColE("a", Ev), Fn("f1", <<ColE("a", Ev), c>>)>>),
    Q1(m, "array_join", ListN(<<ColE("a", Ev), c>>)) >>
Place(m, c, i) == LET p == Positions(m, c) \o Both(m, c) IN p[i]
NPlaces == Len(Positions(E0, Count)) + Len(Both(E0, Count))
MatchSeq == SetToSeq(Matches)
Place1(m, c, i) == Positions(m, c)[i]
Few == {Col("a"), Col("al"), Col("tags[k]"), ColE("a", Ev), ColE("b", Tx)}
Valid(m, cs) == {q \in {Place1(m, c, i) : c \in cs, i \in 1..Len(Positions(E0, Count))} : QueryErrs(q) = {}}
SearchCols == {Col("a"), Col("i"), Col("tags[k]"), ColE("a", Ev), Col("f1")}
------------------------------------------------------------------------------
(* C19: functions, and the questions about functions *)
\* every sequence below n a tuple, so that Python can put it in a set
RECURSIVE Tupled(_)
Tupled(n) == N(IF n.k = "list" THEN "tuple" ELSE n.k, n.v, [i \in 1..Len(n.c) |-> Tupled(n.c[i])])
Hashable(q) == N("query", "", [i \in 1..Len(q.c) |-> IF q.c[i].k = "list" THEN ListN([j \in 1..Len(q.c[i].c) |-> Tupled(q.c[i].c[j])])
                                                     ELSE IF q.c[i].k = "limitby" THEN q.c[i] ELSE Tupled(q.c[i])])
SearchFns == {Col("a"), Fn("g1", <<>>), FnA("g1", <<Col("b")>>, "al"), Cfn("g1", ListN(<<IntN(1)>>), ListN(<<Col("b"), Fn("g2", <<>>)>>), None), Cfn("g1", ListN(<<Fn("g3", <<>>)>>), None, Str("x"))}
\* (limit by and array join take columns only)
FnPlaces == {i \in 1..NPlaces : Place(E0, Fn("zz", <<>>), i).c[4] = None /\ Place(E0, Fn("zz", <<>>), i).c[8] = None}
FnQueries == {Hashable(q) : q \in {x \in {Place(E0, c, i) : c \in SearchFns, i \in FnPlaces} : QueryErrs(x) = {}}}
AggVariants(b) == {b, b \o "X", "x" \o b, b \o "()", b \o "(a)", "f(" \o b \o "(a))", "f(" \o b \o ")", b \o "If(a, b)", b \o "if", b \o "_"}
NoAl == N("set", "", <<>>)
AlSets == {None, NoAl, N("set", "", <<Str("al")>>), N("set", "", <<Str("al"), Str("tags[x]")>>), N("set", "", <<Str("sum")>>)}
Words == {"count", "al", "f", "uniqHLL12", "1count", "_sum", "sumX", "al2"}
LegacyNames == {a \o "(" \o b \o c : a \in Words, b \in Words \cup {""}, c \in {")", "(", "()", "(a))", "", ", count(x))", ")sum"}} \cup Words
\* where a thing can stand in a function
Wraps(x) == << Fn("f1", <<x>>), Fn("f1", <<IntN(1), Col("zz"), x>>), FnA("f1", <<x, IntN(1)>>, "al"), FnT("f1", TupN(<<x>>), None), Cfn("f1", ListN(<<IntN(1)>>), ListN(<<Str("s"), x>>), None), Cfn("f1", None, TupN(<<x>>), Str("al")),
               Cfn("f1", ListN(<<x>>), ListN(<<IntN(1)>>), None), Cfn("f1", ListN(<<x>>), None, None), Fn("f1", <<ListN(<<x>>)>>), Fn("f1", <<TupN(<<IntN(1), x>>)>>), Fn("f1", <<LamN(<<Str("i")>>, Fn("f2", <<x>>))>>), Fn("f1", <<Fn("f2", <<>>), Fn("f3", <<Fn("f4", <<x>>)>>)>>) >>
NW == Len(Wraps(Count))
WrapAll(S) == {Wraps(x)[i] : x \in S, i \in 1..NW}
Leaves == {Col("al"), Col("al2"), Col("tags[x]"), ColE("al", Ev), Fn("count", <<>>), FnA("plus", <<IntN(1)>>, "count"), Fn("sumIf", <<Col("b")>>), Cfn("quantile", ListN(<<Flt("0.5")>>), ListN(<<Col("b")>>), None), Fn("g(al)", <<>>), Fn("plus(count(x), 1)", <<>>), FnT("uniqState", None, None), Str("al"), Str("count"), IntN(1)}
Hay(c) == WrapAll({c}) \cup WrapAll(WrapAll({c}))
Needles == {Col("a"), Col("b"), ColE("a", Ev), ColE("a", Tx), Col("tags[k]"), Col("a[k]")}
\* C09: joins of every shape, relationships repeated, reversed, renamed
EvS == EntityN("events", Str("e"), Flt("0.5"), None)
Rels == <<RelN(Ev, "r", Tx), RelN(Tx, "r", Ev), RelN(Ev, "s", Tx), RelN(Ev, "r", Ent("events", "E")), RelN(Ev, "r", Ent("sessions", "s")), RelN(Ent("sessions", "s"), "r", Tx), RelN(EvS, "r", Tx)>>
NR == Len(Rels)
RelJoins == {JoinN(<<Rels[i]>>) : i \in 1..NR} \cup {JoinN(<<Rels[i], Rels[j]>>) : i \in 1..NR, j \in 1..NR} \cup {JoinN(<<Rels[i], Rels[j], Rels[k]>>) : i \in 1..NR, j \in 1..NR, k \in 1..NR}
OnJoin(j) == LET r == j.c[1].c[Len(j.c[1].c)] IN Qs(j, <<ColE("a", r.c[1]), Fn("f1", <<ColE("b", r.c[3]), ColE("b", r.c[3])>>), ColE("a", r.c[1])>>)
------------------------------------------------------------------------------
(* Rows: one element among many siblings, at every place of the row *)
Lens == IF Deep THEN {2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 101} ELSE {2, 3, 4, 5, 8, 9, 17, 33}
RowSpots == {<<n, p>> \in Lens \X (1..101) : p <= n /\ (p <= 6 \/ p >= n - 1)}
Row(x, np, f) == [i \in 1..np[1] |-> IF i = np[2] THEN x ELSE f]
RowEq(r) == [i \in 1..Len(r) |-> CondN(r[i], "GT", IntN(i))]
RowIn(m, r, k) ==
    CASE k = 1 -> Qs(m, r)
      [] k = 2 -> Q1(m, "groupby", ListN(r))
      [] k = 3 -> Q1(m, "orderby", ListN([i \in 1..Len(r) |-> OrderN(r[i], "DESC")]))
      [] k = 4 -> Q1(m, "where", ListN(RowEq(r)))
      [] k = 5 -> Q1(m, "having", ListN(RowEq(r)))
      [] k = 6 -> Q1(m, "where", ListN(<<AndN(RowEq(r))>>))
      [] k = 7 -> Q1(m, "where", ListN(<<Fix, OrN(RowEq(r))>>))
      [] k = 8 -> Q1(m, "having", ListN(<<BcondN("OR", <<Fix, AndN(RowEq(r))>>)>>))
      [] k = 9 -> Qs(m, <<Fn("f1", r)>>)
      [] k = 10 -> Qs(m, <<Cfn("f1", ListN(<<IntN(1)>>), ListN(r), Str("y"))>>)
      [] k = 11 -> Qs(m, <<Count, Fn("f1", <<LamN(<<Str("i")>>, Fn("f2", r)), IntN(1)>>)>>)
      [] k = 12 -> Qs(m, <<Fn("f1", <<TupN(r)>>)>>)
      [] k = 13 -> Qs(m, <<Fn("f1", <<IntN(1), ListN(r)>>)>>)
      [] k = 14 -> Q1(m, "where", ListN(<<CondN(Fn("now", <<>>), "IN", TupN(r))>>))
      [] k = 15 -> Q1(m, "where", ListN(<<CondN(Fn("f1", r), "EQ", Fn("f2", r))>>))
      [] k = 16 -> Qs(m, <<Cfn("f1", ListN(r), ListN(<<IntN(1)>>), None)>>)
      [] k = 17 -> Q1(m, "limitby", LimitByN(r, 5))
      [] k = 18 -> Q1(m, "array_join", ListN(r))
ModelE == EntityN("events", None, None, Model)
RowMatches == <<ModelE, Inner, Joined>>
RowGood == <<Col("a"), Col("a"), ColE("a", Ev)>>
RowX == <<{Col("b.c"), Col("nope")}, {Col("al"), Col("nope")}, {ColE("b", Tx), ColE("a", Ent("events", "z")), Col("a")}>>
RowOk == <<{Col("b.c")}, {Col("al")}, {ColE("b", Tx)}>>
\* fillers: columns anywhere; scalars and functions where they can stand
RowFill(j, k) == IF k <= 8 THEN {RowGood[j], Fn("g1", <<>>)} ELSE IF k <= 15 THEN {RowGood[j], Fn("g1", <<>>), IntN(7), Str("s")} ELSE IF k = 16 THEN {RowGood[j], IntN(7)} ELSE {RowGood[j]}
RowQ(j, k, xs) == {RowIn(RowMatches[j], Row(x, np, f), k) : x \in xs[j], np \in RowSpots, f \in {y \in RowFill(j, k) : k \notin {12, 13, 14} \/ y.k # "str"}}
RowQs(j, xs) == UNION {RowQ(j, k, xs) : k \in 1..18}
\* the questions about functions
RowFns(xs) == UNION {{Fn("f1", Row(x, np, f)), Cfn("f1", ListN(<<IntN(1)>>), TupN(Row(x, np, f)), None), Fn("f1", <<IntN(1), Fn("f2", Row(x, np, f))>>), Fn("f1", Row(Fn("f2", <<Str("s"), x>>), np, f))} : x \in xs, np \in RowSpots, f \in {IntN(7), Col("zz"), Fn("g1", <<>>), None, ListN(<<IntN(1)>>)}}
RowLeaves == {Col("al"), Fn("count", <<>>), Cfn("quantile", ListN(<<Flt("0.5")>>), ListN(<<Col("b")>>), None), IntN(1)}
Base == IF Prop = "C19" THEN 11 ELSE IF Prop = "C09" THEN Len(MatchSeq) + 2 ELSE Len(MatchSeq)
RowCases(j) ==
    CASE Prop = "C06" -> {Acc("validate", <<q>>) : q \in RowQs(j, RowX)}
      [] Prop = "C19" /\ j <= 3 -> {C("find", <<q, Str("Column")>>) : q \in RowQs(j, RowOk)}
      [] Prop = "C19" /\ j = 4 -> {C("isagg", <<f, N("set", "", <<Str("al"), Str("tags[x]")>>)>>) : f \in RowFns(RowLeaves)}
      [] Prop = "C19" /\ j = 5 -> {C("hascol", <<Col("a"), f>>) : f \in RowFns({Col("a"), Col("b")})}
      [] Prop = "C01" -> {C("serialize", <<q>>) : q \in RowQs(j, RowOk)}
      [] Prop = "C09" -> {C(op, <<q>>) : op \in {"print", "serialize"}, q \in RowQs(j, RowOk)}
McGroups == Base + (IF Prop = "C19" THEN 5 ELSE 3)
McCases(g) ==
    LET m == MatchSeq[IF Prop = "C19" \/ g > Len(MatchSeq) THEN 1 ELSE g]
    IN CASE g > Base -> RowCases(g - Base)
         [] Prop = "C06" -> {Acc("validate", <<Place(m, c, i)>>) : c \in Columns, i \in 1..NPlaces}
         [] Prop = "C01" -> {C("serialize", <<q>>) : q \in Valid(m, Few)}
         [] Prop = "C18" -> {C("print", <<q>>) : q \in Valid(m, Few)}
         [] Prop = "C09" /\ g = Len(MatchSeq) + 1 -> {C("print", <<OnJoin(j)>>) : j \in RelJoins}
         [] Prop = "C09" /\ g = Len(MatchSeq) + 2 -> {C("serialize", <<Qs(OnJoin(j), <<Col("a"), ColE("a", Tx), Count>>)>>) : j \in RelJoins}
         [] Prop = "C09" -> {C("print", <<q>>) : q \in Valid(m, Few)}
                            \cup (IF m.k \notin {"join", "query"} THEN {} ELSE
                                    {C("serialize", <<Qs(q, <<Count, ColE("cnt", Ev)>>)>>) : q \in Valid(m, Few)})
                            \cup (IF m.k # "query" THEN {} ELSE {C("print", <<Qs(m, <<ColE("al", Ev), Fn("f1", <<ColE("a", Tx)>>)>>)>>)})
         [] Prop = "C19" /\ g = 7 -> {C("find", <<q, Str(k)>>) : q \in FnQueries, k \in {"Function", "CurriedFunction", "Column"}}
         [] Prop = "C19" /\ g = 8 -> {C("aggname", <<Str(x), None>>) : x \in UNION {AggVariants(b) : b \in AggBase}} \cup {C("aggname", <<Str(x), NoAl>>) : x \in Aggregates}
         [] Prop = "C19" /\ g = 9 -> {C("aggname", <<Str(x), al>>) : x \in LegacyNames, al \in AlSets}
         [] Prop = "C19" /\ g = 10 -> {C("isagg", <<f, al>>) : f \in WrapAll(Leaves) \cup WrapAll(WrapAll(Leaves)) \cup {x \in Leaves : x.k \in FnKinds}, al \in {None, N("set", "", <<Str("al"), Str("tags[x]")>>)}}
         [] Prop = "C19" /\ g = 11 -> {C("hascol", <<n, h>>) : n \in Needles, h \in UNION {Hay(c) : c \in {Col("a"), ColE("a", Ev), Col("tags[k]"), Fn("a", <<>>)}}}
         [] Prop = "C19" -> {C("find", <<Place(<<E0, E0, Joined, Joined, Inner, Inner>>[g], c, i), Str(<<"Column", "AliasedExpression">>[1 + (g - 1) - 2 * ((g - 1) \div 2)])>>) :
                                c \in SearchCols, i \in 1..NPlaces}

------------------------------------------------------------------------------
(* Laws *)
Q == last[2][1]
\* C06: where a column stands makes no difference to whether it resolves
Law06 == (Prop = "C06" /\ Done) =>
            ((QueryErrs(Q) = {}) <=> \A c \in ClauseCols(Q) : Resolves(c, QMatch(Q)))
\* C09: a dotted alias appears exactly where a join is matched
Law09 == (Prop = "C09" /\ Done) =>
            LET own == JoinStr(Tail(Clauses(Q)), " ")
            IN (ContainsStr(own, "e.a") \/ ContainsStr(own, "t.b"))
               <=> (QMatch(Q).k = "join" /\ \E c \in ClauseCols(Q) : c \in {ColE("a", Ev), ColE("b", Tx)})
\* C19: every column is found, and nothing else
Law19 == (Prop = "C19" /\ Done /\ last[1] = "find" /\ last[2][2].v = "Column") => FindInQuery(Q, {"col"}) = ClauseCols(Q)
\* a suffix makes no difference, and neither does a function around an aggregate
LawAgg == (Prop = "C19" /\ Done /\ last[1] = "isagg" /\ IsAggregate(Q, last[2][2])) => IsAggregate(Fn("zz", <<Q>>), last[2][2])
LawCol == (Prop = "C19" /\ Done /\ last[1] = "hascol" /\ HasColumn(Q, last[2][2])) => Q \in FindKinds(last[2][2], {"col"})
Laws == Law06 /\ Law09 /\ Law19 /\ LawAgg /\ LawCol
==============================================================================
