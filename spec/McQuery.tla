------------------------------- MODULE McQuery -------------------------------
(***************************************************************************)
(* Whole queries.  C01, C18: every subset of the clauses, every small       *)
(* expression in every clause that takes it, long and repetitive lists,     *)
(* deep nesting.  C05: what makes a query ill-formed, and every setter with *)
(* every value.                                                             *)
(***************************************************************************)
EXTENDS Mc

A == Col("a")
B == Col("b")
K == Col("tags[k]")
Seq1(n, F(_)) == [i \in 1..n |-> F(i)]
ColNo(i) == Col(<<"z", "b", "a", "y", "z", "c", "m", "a", "d", "k", "b", "q", "e", "r", "x">>[1 + ((i - 1) - 15 * ((i - 1) \div 15))])
Eq(i) == CondN(ColNo(i), "NEQ", IntN(9 - i))

------------------------------------------------------------------------------
(* Clause subsets *)
Full == << Count, ListN(<<K, B>>), ListN(<<B, A>>), ListN(<<CondN(A, "GT", IntN(1)), OrN(<<CondN(B, "EQ", Str("x")), CondN(B, "EQ", Str("y"))>>)>>),
           ListN(<<CondN(Fn("sum", <<A>>), "LTE", Flt("2.5"))>>), ListN(<<OrderN(B, "DESC"), OrderN(A, "ASC")>>),
           LimitByN(<<B, A>>, 7), OneN("limit", IntN(10)), OneN("offset", IntN(0)), OneN("gran", IntN(60)), OneN("totals", True) >>
\* bits of s choose the clauses 3..12
Subset(s) == N("query", "", <<E0, ListN(<<Count, A>>)>> \o [i \in 1..10 |-> IF i \in s THEN Full[i + 1] ELSE None])
Subsets == {Subset(s) : s \in {x \in SUBSET (1..10) : 10 \in x => 1 \in x}}
\* empty lists where clauses may be empty
Empties == {With(With(Subset({1, 4, 6}), f, x), h, x) : f \in {"groupby", "array_join", "where", "having", "orderby"},
              h \in {"groupby", "array_join", "where", "having", "orderby"}, x \in {ListN(<<>>), TupN(<<>>), None}}

------------------------------------------------------------------------------
(* Expressions *)
Ents == Ent("events", "e")
Lits == {None, True, False, IntN(0), IntN(-7), IntS("9007199254740993"), IntS("-123456789012345678901234567890"), Flt("1.5"), Flt("1e-07"), Flt("1e+16"),
         Flt("100.0"), Flt("0.1"), Str(""), Str("x"), Str("it's \\ \n"), Bytes("x"), DtN(2024, 2, 29, 23, 59, 59, 1, None), DateN(1999, 1, 31)}
Conts == {ListN(<<>>), TupN(<<>>), ListN(<<IntN(1)>>), TupN(<<Str("x")>>), ListN(<<A, TupN(<<IntN(1), ListN(<<Str("y"), A>>)>>)>>), TupN(<<Fn("f2", <<A>>), None>>)}
Lams == {LamN(<<Str("x")>>, Fn("f2", <<IdN("x")>>)), LamN(<<Str("x"), Str("y")>>, FnA("f2", <<IdN("y"), A>>, "al")), LamN(<<>>, Fn("f2", <<>>)),
         LamN(<<Str("y"), Str("x")>>, Cfn("f2", ListN(<<IntN(1)>>), ListN(<<LamN(<<Str("z")>>, Fn("f3", <<IdN("z"), IdN("x")>>))>>), None))}
SubFns == {Fn("f2", <<A>>), FnA("f2", <<IntN(1)>>, "in.ner"), Cfn("f2", ListN(<<Flt("0.5")>>), ListN(<<A>>), Str("i")), Cfn("f2", ListN(<<>>), None, None),
           FnT("f2", None, None), FnT("f2", TupN(<<A, IntN(1)>>), None), Fn("f2", <<Fn("f3", <<Fn("f4", <<A, FnA("f5", <<K>>, "deep")>>)>>)>>), FnT("f2", Str("ab"), None)}
Params == Lits \cup Conts \cup Lams \cup SubFns \cup {A, K, ColE("a", Ents), IdN("x")}
Ini == {None, ListN(<<>>), TupN(<<IntN(1)>>), ListN(<<A, Str("x")>>), ListN(<<Flt("0.5"), Flt("0.99"), K>>), ListN(<<None, True>>)}
Aliases == {None, Str("al"), Str("a.b[c]"), Str("1*(x)/@:-+")}
Fns == {Fn("f1", <<p>>) : p \in Params} \cup {FnA("f1", <<p, A, p>>, "al") : p \in Params} \cup {FnT("f1", TupN(<<A, p>>), None) : p \in Params}
       \cup {Cfn("f1", i, ps, al) : i \in Ini, ps \in {None, ListN(<<>>), ListN(<<A>>), TupN(<<K, IntN(2)>>)}, al \in Aliases}
       \cup {FnT(f, ps, al) : f \in {"f1", "count()", "ab.c,d", "f'x\"y", "f(1)[2]-+: z"}, ps \in {None, ListN(<<>>), ListN(<<A, B, A>>)}, al \in Aliases}
Sels == Fns \cup {A, K, ColE("a", Ents), AliasedN(A, Str("x")), AliasedN(K, None), AliasedN(A, Str("a b"))}
Rhs == Lits \cup Conts \cup {A, ColE("b", Ents), Fn("f2", <<A>>), FnA("f2", <<>>, "al")}
Lhs == {A, K, Fn("f1", <<A, IntN(1)>>), Cfn("f1", ListN(<<IntN(1)>>), ListN(<<A>>), Str("al"))}
Conds == {CondN(l, o, r) : l \in Lhs, o \in OpNames \ UnaryOps, r \in {IntN(1), Str("x%"), None, A, Fn("f2", <<>>), ListN(<<IntN(1), Str("x")>>), TupN(<<>>)}}
         \cup {CondN(l, o, None) : l \in Lhs, o \in UnaryOps} \cup {CondN(A, "EQ", r) : r \in Rhs}
\* boolean trees
L1 == CondN(A, "EQ", IntN(1))
L2 == CondN(A, "EQ", IntN(2))
L3 == CondN(B, "IS_NULL", None)
Mk2(k, cs) == CASE k = 1 -> AndN(cs) [] k = 2 -> OrN(cs) [] k = 3 -> BcondN("AND", cs) [] k = 4 -> BcondN("OR", cs) [] k = 5 -> N("or", "", <<TupN(cs)>>)
Flat == {Mk2(k, cs) : k \in 1..5, cs \in {<<L1, L2>>, <<L2, L1>>, <<L1, L3>>, <<L3, L1, L2>>, <<L1, L1>>, <<L1, L2, L1, L2>>}}
Small == {Mk2(k, <<L1, L2>>) : k \in 1..4} \cup {Mk2(k, <<L3, L1>>) : k \in 1..2} \cup {L1, L3}
Trees == Flat \cup {Mk2(k, <<x, y>>) : k \in 1..4, x \in Small, y \in Small} \cup {Mk2(k, <<x, L3, Mk2(j, <<y, x>>)>>) : k \in 1..2, j \in 1..2, x \in Small, y \in Small}
Samples == {Flt("0.1"), Flt("1.0"), Flt("1e-06"), Flt("1e-07"), Flt("1.5e-09"), Flt("0.123456789"), Flt("0.1234565"), Flt("1e+16"), Flt("2.5"), Flt("10000000.0"), Flt("0.3333333333333333"), Flt("12.3456789")}

------------------------------------------------------------------------------
(* Sizes *)
Sizes == (1..13) \cup {16, 17, 20, 21, 32, 33, 50, 64, 65, 100, 101}
RECURSIVE DeepFn(_)
DeepFn(n) == IF n = 0 THEN A ELSE FnA("f" \o ToString(n), <<IntN(n), DeepFn(n - 1)>>, "al" \o ToString(n))
RECURSIVE DeepAnd(_)
DeepAnd(n) == IF n = 0 THEN L1 ELSE (IF n = 2 * (n \div 2) THEN AndN(<<Eq(n), DeepAnd(n - 1)>>) ELSE OrN(<<DeepAnd(n - 1), Eq(n)>>))
RECURSIVE DeepList(_)
DeepList(n) == IF n = 0 THEN IntN(0) ELSE IF n = 2 * (n \div 2) THEN ListN(<<IntN(n), DeepList(n - 1)>>) ELSE TupN(<<DeepList(n - 1), IntN(n)>>)
RECURSIVE DeepQ(_)
DeepQ(n) == IF n = 0 THEN Qs(E0, <<A, B>>) ELSE With(Qs(DeepQ(n - 1), <<B, A, FnA("f1", <<A>>, "al")>>), "orderby", ListN(<<OrderN(A, "DESC")>>))
Sized(n) == << Qs(E0, Seq1(n, ColNo)), Q1(E0, "groupby", ListN(Seq1(n, ColNo))), Q1(E0, "array_join", ListN(Seq1(n, ColNo))),
    Q1(E0, "where", ListN(Seq1(n, Eq))), Q1(E0, "having", ListN(Seq1(n, Eq))), Q1(E0, "orderby", ListN([i \in 1..n |-> OrderN(ColNo(i), IF ColNo(i) = A THEN "ASC" ELSE "DESC")])),
    Q1(E0, "limitby", LimitByN(Seq1(n, ColNo), n)), Qs(E0, <<Fn("f1", Seq1(n, ColNo))>>), Qs(E0, <<Cfn("f1", ListN(Seq1(n, IntN)), ListN(<<A>>), None)>>),
    Q1(E0, "where", ListN(<<CondN(A, "IN", ListN([i \in 1..n |-> IntN(n - i)]))>>)), Q1(E0, "where", ListN(<<CondN(A, "IN", TupN([i \in 1..n |-> Str("v" \o ToString((i * 7) \div 2))]))>>)),
    Q1(E0, "where", ListN(<<AndN(Seq1(n + 1, Eq))>>)), Q1(E0, "where", ListN(<<OrN([i \in 1..(n + 1) |-> CondN(A, "EQ", IntN(n \div i))])>>)),
    Q1(E0, "having", ListN(<<BcondN("OR", [i \in 1..(n + 1) |-> CondN(A, "EQ", IntN(i))])>>)),
    Qs(E0, <<Fn("f1", <<LamN([i \in 1..n |-> Str("x" \o ToString(i))], Fn("f2", [i \in 1..n |-> IdN("x" \o ToString(n + 1 - i))]))>>)>>),
    Qs(E0, [i \in 1..n |-> FnA("f1", <<>>, "al" \o ToString(i))]),
    Qs(JoinN([i \in 1..n |-> RelN(Ent("e" , "a" \o ToString(i)), "r", Ent("f", "b" \o ToString(i)))]), [i \in 1..n |-> ColE("a", Ent("f", "b" \o ToString(i)))]) >>
NSized == Len(Sized(1))
Depths == 0..12
Deeps(n) == << Qs(E0, <<DeepFn(n)>>), Where(Q0(E0), <<DeepAnd(n)>>), Where(Q0(E0), <<L1, DeepAnd(n), L2>>), With(Q0(E0), "having", ListN(<<DeepAnd(n)>>)),
               Where(Q0(E0), <<CondN(A, "IN", DeepList(n + 1))>>), DeepQ(n), Qs(E0, <<Fn("f1", <<DeepList(n)>>)>>) >>
Nums == {1, 2, 9, 10, 99, 100, 999, 1000, 1001, 9999, 10000}
Ints == {With(With(Q0(E0), "limit", OneN("limit", IntN(i))), "offset", OneN("offset", IntN(j))) : i \in Nums, j \in Nums \cup {0, 123456789}}
        \cup {With(Q1(E0, "limitby", LimitByN(<<A>>, i)), "granularity", OneN("gran", IntN(j))) : i \in Nums, j \in Nums}
        \cup {With(Q1(E0, "limit", OneN("limit", True)), "offset", OneN("offset", False)), Q1(E0, "offset", OneN("offset", IntS("99999999999999999999"))), Q1(E0, "totals", OneN("totals", False)),
              With(Q1(E0, "totals", OneN("totals", False)), "groupby", ListN(<<A>>))}
EntsAll == {EntityN(n, al, s, None) : n \in {"events", "E_v"}, al \in {None, Str("e")}, s \in Samples \cup {None}} \cup {StorageN(n, s, None) : n \in {"st", "S_t"}, s \in Samples \cup {None}}
        \cup {JoinN(<<RelN(EntityN("events", Str("e"), s, None), "r", EntityN("t", Str("t"), None, None)), RelN(EntityN("events", Str("e"), s, None), "r", EntityN("u", Str("u"), s, None))>>) : s \in Samples}
(* Neighbours: pairs of elements that agree in a part (name, alias, parameters, value) and differ in another, in every list and in every pair of clauses *)
NearExprs == {A, B, K, Col("tags"), Col("x"), ColE("a", Ents), ColE("a", Ent("t", "t"))}
             \cup {FnA("f1", <<A>>, "x"), FnA("f1", <<B>>, "x"), FnA("f2", <<A>>, "x"), FnA("f1", <<A>>, "y"), FnA("f1", <<A>>, "a"), FnA("x", <<A>>, "f1"),
                    Fn("f1", <<>>), Fn("f1", <<A>>), Fn("f1", <<B>>), Fn("f1", <<A, A>>), Fn("f1", <<IntN(1)>>), Fn("f1", <<True>>), Fn("f1", <<Flt("1.0")>>), Fn("f1", <<Str("1")>>), Fn("f1", <<Str("a")>>),
                    Fn("f1", <<IntN(0)>>), Fn("f1", <<None>>), Fn("f1", <<Str("")>>), Cfn("f1", ListN(<<IntN(1)>>), ListN(<<A>>), None), Cfn("f1", ListN(<<IntN(1)>>), ListN(<<A>>), Str("x")), Fn("f1", <<FnA("f1", <<A>>, "x")>>)}
NearAliased == {AliasedN(A, Str("x")), AliasedN(B, Str("x")), AliasedN(A, Str("y")), AliasedN(A, None)}
NearSels == NearExprs \cup NearAliased
NearCols == {x \in NearExprs : x.k = "col"}
NearVals == {IntN(1), True, Flt("1.0"), Str("1"), Str("true"), IntN(0), False, Str(""), None, Str("NULL"), Bytes("1"), DateN(2024, 1, 1), DtN(2024, 1, 1, 0, 0, 0, 0, None), Str("2024-01-01T00:00:00"), A, Str("a"), Fn("f1", <<>>), ListN(<<>>), TupN(<<IntN(1)>>), ListN(<<IntN(1)>>)}
NearConds == {CondN(l, o, r) : l \in {A, B, ColE("a", Ents), FnA("f1", <<A>>, "x"), FnA("f1", <<B>>, "x")}, o \in {"EQ", "NEQ"}, r \in {IntN(1), True, Str("1"), A}}
             \cup {CondN(A, o, ListN(<<IntN(1)>>)) : o \in {"IN", "NOT_IN"}} \cup {CondN(A, "IS_NULL", None), CondN(B, "IS_NULL", None), OrN(<<L1, L2>>), AndN(<<L1, L2>>), OrN(<<L2, L1>>), BcondN("OR", <<L1, L2>>)}
Dirs == {"ASC", "DESC"}
\* (one set to a case: TLC takes quadratic time to join sets)
Nears(i) ==
    CASE i = 1 -> {Qs(E0, <<x, y>>) : x \in NearSels, y \in NearSels}
      [] i = 2 -> {Q1(E0, "groupby", ListN(<<x, y>>)) : x \in NearSels, y \in NearSels}
      [] i = 3 -> {Qs(E0, <<Fn("g1", <<x, y>>)>>) : x \in NearExprs, y \in NearExprs}
      [] i = 4 -> {Q1(E0, "orderby", ListN(<<OrderN(x, "ASC"), OrderN(y, d)>>)) : x \in NearExprs, y \in NearExprs, d \in Dirs}
      [] i = 5 -> {Q1(E0, "array_join", ListN(<<x, y>>)) : x \in NearCols, y \in NearCols}
      [] i = 6 -> {Q1(E0, "limitby", LimitByN(<<x, y>>, 3)) : x \in NearCols, y \in NearCols}
      [] i = 7 -> {Qs(E0, <<Fn("g1", <<ListN(<<x, y>>), TupN(<<y, x>>)>>)>>) : x \in NearVals, y \in NearVals}
      [] i = 8 -> {Qs(E0, <<Cfn("g1", ListN(<<x, y>>), ListN(<<y>>), None)>>) : x \in NearVals, y \in NearVals}
      [] i = 9 -> {Q1(E0, "where", ListN(<<CondN(A, "IN", ListN(<<x, y>>)), CondN(A, "EQ", y)>>)) : x \in NearVals, y \in NearVals}
      [] i = 10 -> {With(Qs(E0, <<x>>), "groupby", ListN(<<y>>)) : x \in NearSels, y \in NearSels}
      [] i = 11 -> {With(Qs(E0, <<x>>), "orderby", ListN(<<OrderN(y, "DESC")>>)) : x \in NearSels, y \in NearExprs}
      [] i = 12 -> {With(Q1(E0, "groupby", ListN(<<x>>)), "orderby", ListN(<<OrderN(y, "ASC")>>)) : x \in NearSels, y \in NearExprs}
      [] i = 13 -> {With(Qs(E0, <<x>>), "having", ListN(<<CondN(y, "GT", IntN(1))>>)) : x \in NearSels, y \in NearExprs}
      [] i = 14 -> {With(Qs(E0, <<x>>), "limitby", LimitByN(<<y>>, 2)) : x \in NearSels, y \in NearCols}
      [] i = 15 -> {With(Qs(E0, <<x>>), "array_join", ListN(<<y>>)) : x \in NearSels, y \in NearCols}
      [] i = 16 -> {Qs(Qs(E0, <<x, Count>>), <<Col("cnt"), y>>) : x \in NearSels, y \in NearSels}
      [] i = 17 -> {Q1(E0, "where", ListN(<<x, y>>)) : x \in NearConds, y \in NearConds}
      [] i = 18 -> {Q1(E0, "having", ListN(<<x, y>>)) : x \in NearConds, y \in NearConds}
      [] i = 19 -> {With(Q1(E0, "where", ListN(<<x>>)), "having", ListN(<<y>>)) : x \in NearConds, y \in NearConds}
      [] i = 20 -> {Q1(E0, "where", ListN(<<AndN(<<x, y>>)>>)) : x \in NearConds, y \in NearConds}
      [] i = 21 -> {Q1(E0, "having", ListN(<<OrN(<<x, y, x>>)>>)) : x \in NearConds, y \in NearConds}
NNears == 21
TextGroups == 10 + NNears
TextQueries(g) ==
    CASE g = 1 -> Subsets
      [] g = 2 -> {Qs(E0, <<x>>) : x \in Sels} \cup {Qs(E0, <<A, x, x>>) : x \in Sels}
      [] g = 3 -> {Q1(E0, "groupby", ListN(<<x, A>>)) : x \in Sels}
      [] g = 4 -> {Q1(E0, "where", ListN(<<L3, x>>)) : x \in Conds}
      [] g = 5 -> {Q1(E0, "having", ListN(<<x, L3>>)) : x \in Conds} \cup Empties
      [] g = 6 -> {Q1(E0, "where", ListN(<<x, L1>>)) : x \in Trees}
      [] g = 7 -> {Q1(E0, "having", ListN(<<x, x>>)) : x \in Trees} \cup {Q1(E0, "orderby", ListN(<<OrderN(x, d)>>)) : x \in {y \in Sels : y.k # "aliased"}, d \in {"ASC", "DESC"}}
      [] g = 8 -> {Sized(n)[i] : n \in Sizes, i \in 1..NSized}
      [] g = 9 -> {Deeps(n)[i] : n \in Depths, i \in 1..Len(Deeps(1))} \cup {Qs(Qs(E0, <<x, FnA("f0", <<>>, "al")>>), <<Col("al")>>) : x \in Sels}
      [] g = 10 -> Ints \cup {Q0(m) : m \in EntsAll} \cup {Qs(Q0(m), <<Count>>) : m \in EntsAll}
      [] OTHER -> Nears(g - 10)

------------------------------------------------------------------------------
(* C05 *)
QPool == << None, True, IntN(0), IntN(1), IntN(10000), IntN(10001), IntN(-1), Flt("1.0"), Str(""), Str("a"), Obj, DictN(<<>>), ListN(<<>>), TupN(<<>>),
    A, AliasedN(A, Str("x")), Fn("f1", <<>>), Cfn("f1", None, None, None), LamN(<<Str("x")>>, Fn("f1", <<>>)), IdN("x"), L1, AndN(<<L1, L2>>), OrderN(A, "ASC"), LimitByN(<<A>>, 1),
    OneN("limit", IntN(1)), OneN("offset", IntN(1)), OneN("gran", IntN(1)), OneN("totals", True), E0, StorageN("s", None, None), JoinN(<<RelN(Ent("e", "a"), "r", Ent("f", "b"))>>),
    Q0(E0), Qs(E0, <<>>), With(Q0(E0), "select", None), Q1(E0, "totals", OneN("totals", True)), Qs(Q0(E0), <<A>>), Qs(Q0(E0), <<Col("cnt")>>), Q1(E0, "totals", OneN("totals", False)),
    ListN(<<A>>), TupN(<<A>>), ListN(<<A, B>>), ListN(<<AliasedN(A, Str("x"))>>), ListN(<<Fn("f1", <<>>)>>), ListN(<<Cfn("f1", None, None, None), A>>), ListN(<<A, L1>>), ListN(<<L1>>), TupN(<<L1>>),
    ListN(<<L1, A>>), ListN(<<OrN(<<L1, L2>>), L1>>), ListN(<<BcondN("OR", <<L1, L2>>)>>), ListN(<<OrderN(A, "ASC")>>), TupN(<<OrderN(A, "ASC")>>), ListN(<<OrderN(A, "ASC"), A>>), ListN(<<LimitByN(<<A>>, 1)>>),
    ListN(<<Str("a")>>), ListN(<<IntN(1)>>), ListN(<<Obj>>), ListN(<<A, A, A, Obj>>), ListN(<<None>>), ListN(<<ListN(<<A>>)>>), ListN(<<E0>>), ListN(<<Q0(E0)>>), ListN(<<LamN(<<Str("x")>>, Fn("f1", <<>>))>>), ListN(<<IdN("x")>>), Str("ab") >>
NQP == Len(QPool)
Queries == << Q0(E0), Subset({1, 3, 5, 7, 10}), Qs(Q0(E0), <<Col("cnt")>>), With(Q0(E0), "select", None) >>
Fields == {QFields[i] : i \in 1..12}
SetCalls(q) == {C("set", <<q, Str(f), QPool[j]>>) : f \in Fields, j \in 1..NQP}
NewCalls == {Acc("new", <<Q0(QPool[j])>>) : j \in 1..NQP}
Sel5 == {None, ListN(<<>>), TupN(<<>>), ListN(<<A>>), TupN(<<A>>), ListN(<<Count>>)}
Gb5 == {None, ListN(<<>>), TupN(<<>>), ListN(<<A>>), TupN(<<A>>), ListN(<<Fn("f1", <<A>>)>>)}
Tot5 == {None, OneN("totals", True), OneN("totals", False)}
Ops5 == {"validate", "serialize", "print", "str"}
Shapes == {With(With(With(Q0(m), "select", s), "groupby", g), "totals", t) : m \in {E0, Q0(E0), Qs(E0, <<A>>), JoinN(<<RelN(Ent("e", "a"), "r", Ent("f", "b"))>>)}, s \in Sel5, g \in Gb5, t \in Tot5}
Fielded == {With(q, f, QPool[j]) : q \in {Queries[1], Queries[2]}, f \in Fields \ {"match"}, j \in 1..NQP}
Inners == {With(With(Qs(E0, <<A, Count>>), "groupby", g), "totals", t) : g \in Gb5, t \in Tot5} \cup {With(Q0(E0), "select", s) : s \in Sel5}
\* an inner query is judged when the outer one is made
\* one element among many siblings, at every place of the list, also of long lists
RowAt == {<<n, p>> \in {2, 3, 4, 5, 8, 9, 17, 33, 65, 129} \X (1..129) : p <= n /\ (p <= 4 \/ p >= n - 1)}
LongAt == {<<n, n>> : n \in {100, 101, 128, 200, 255, 256, 257, 500, 501, 512, 513, 1000, 1001, 1024, 1025, 2001}}
Row(x, np, f) == [i \in 1..np[1] |-> IF i = np[2] THEN x ELSE f]
RowFillers == [select |-> A, groupby |-> A, array_join |-> A, where |-> L1, having |-> L1, orderby |-> OrderN(A, "ASC")]
RowOdd == {A, AliasedN(A, Str("x")), Fn("f1", <<>>), Cfn("f1", None, None, None), L1, OrN(<<L1, L2>>), OrderN(B, "DESC"), Str("a"), None, Obj, ListN(<<A>>), LimitByN(<<A>>, 1), E0, IdN("x"), LamN(<<Str("x")>>, Fn("f1", <<>>))}
RowSets(f) == {C("set", <<Q0(E0), Str(f), ListN(Row(x, np, RowFillers[f]))>>) : x \in RowOdd, np \in RowAt} \cup {C("set", <<Q0(E0), Str(f), ListN(Row(x, np, RowFillers[f]))>>) : x \in {RowFillers[f], None}, np \in LongAt}
RowFields == <<"select", "groupby", "array_join", "where", "having", "orderby">>
McGroups == IF Prop = "C05" THEN 14 ELSE TextGroups
McCases(g) ==
    CASE Prop = "C01" -> {C("serialize", <<q>>) : q \in TextQueries(g)}
      [] Prop = "C18" -> {C("print", <<q>>) : q \in TextQueries(g)}
      [] Prop = "C05" -> CASE g <= 4 -> SetCalls(Queries[g])
                           [] g = 5 -> NewCalls \cup {Acc("new", <<Q0(i)>>) : i \in Inners} \cup {Acc("new", <<Q0(Qs(i, <<Col("cnt")>>))>>) : i \in Inners}
                           [] g = 6 -> {Acc(o, <<q>>) : o \in Ops5, q \in Shapes}
                           [] g = 7 -> {Acc("validate", <<q>>) : q \in Fielded}
                           [] g = 8 -> {Acc(o, <<q>>) : o \in {"serialize", "print"}, q \in Subsets}
                           [] g > 8 -> RowSets(RowFields[g - 8])

------------------------------------------------------------------------------
(* Laws *)
Q == last[2][1]
\* The same query for its reader
RECURSIVE Norm(_)
Norm(n) ==
    CASE n.k = "bytes" -> Str(n.v)
      [] n.k \in FnKinds -> LET seq(x) == IF IsNone(x) THEN None ELSE N("seq", "", [i \in 1..Len(Elems(x)) |-> Norm(Elems(x)[i])])
                                one == IsNone(FParams(n)) \/ IsNone(FInit(n))        \* f(x) either way
                            IN N("fn", "", IF one THEN <<FName(n), None, seq(IF IsNone(FParams(n)) THEN FInit(n) ELSE FParams(n)), FAlias(n)>>
                                           ELSE <<FName(n), seq(FInit(n)), seq(FParams(n)), FAlias(n)>>)
      [] n.k \in BoolKinds -> N("bool", BoolOp(n), [i \in 1..Len(BoolConds(n)) |-> Norm(BoolConds(n)[i])])
      [] n.k = "aliased" /\ IsNone(n.c[2]) -> Norm(n.c[1])
      [] n.k = "col" -> N("col", "", <<n.c[1]>>)
      [] n.k = "entity" -> N("entity", "", <<n.c[1], n.c[3]>>)
      [] n.k \in {"limit", "offset", "gran"} -> IntS(IntText(n.c[1]))
      [] n.k = "query" -> N("query", "", [i \in 1..12 |-> IF i \in 2..7 THEN ListN([j \in 1..Len(n.c[i].c) |-> Norm(n.c[i].c[j])]) ELSE Norm(n.c[i])])
      [] OTHER -> N(n.k, n.v, [i \in 1..Len(n.c) |-> Norm(n.c[i])])
\* Different queries have different texts (no join in these universes uses two aliases for the same thing)
LawInjective == (Deep /\ Prop = "C18" /\ last # <<>> /\ last[1] = "input" /\ G \in {1, 2, 3, 4, 5, 6, 7}) =>
    LET qs == TextQueries(G)
        good == {q \in qs : QueryErrs(q) = {} /\ Renders(q)}
    IN Cardinality({PrintedText(q) : q \in good}) = Cardinality({Norm(q) : q \in good})
\* every clause once, in order
Words == <<"MATCH ", "SELECT ", "BY ", "ARRAY JOIN ", "WHERE ", "HAVING ", "ORDER BY ", "LIMIT ", "LIMIT ", "OFFSET ", "GRANULARITY ", "TOTALS ">>
LawClauses == (Done /\ Prop \in {"C01", "C18"} /\ QueryErrs(Q) = {}) =>
    LET cs == Clauses(Q) IN \A i \in 1..12 : (cs[i] = "" <=> ~Truthy(Q.c[i])) /\ (cs[i] # "" => StartsWith(cs[i], Words[i]))
\* printing and serializing differ in the separators and in rewritten conditions only
LawLines == (Done /\ Prop = "C18" /\ QueryErrs(Q) = {} /\ Renders(Q)) =>
    LET t == PrintedText(Q)  cs == Clauses(Q) IN Cardinality({i \in 1..Len(t) : Ch(t, i) = "\n"}) + 1 = Cardinality({i \in 1..12 : cs[i] # ""})
\* C05: a setter changes what it is asked to change, or raises
LawSet == (Done /\ Prop = "C05" /\ last[1] = "set" /\ SetErrs(last[2]) = {}) =>
    LET r == SetResult(last[2]) IN \A i \in 1..12 : i # QI[last[2][2].v] => r.c[i] = Q.c[i]
\* and accepted parts make an accepted query, up to what concerns several clauses
LawTotals == (Done /\ Prop = "C05" /\ last[1] = "validate" /\ ~HasMisplaced(Q) /\ QueryErrs(Q) = {}) =>
    Truthy(QSelect(Q)) /\ (QTotals(Q) = OneN("totals", True) => Truthy(QGroupby(Q)))
Laws == LawInjective /\ LawClauses /\ LawLines /\ LawSet /\ LawTotals
==============================================================================
