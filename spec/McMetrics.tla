------------------------------- MODULE McMetrics -------------------------------
(***************************************************************************)
(* C13: the parts of metrics queries, formulas and whole metrics queries.   *)
(***************************************************************************)
EXTENDS Mc

\* one value of every kind
AnyV == <<None, True, False, IntN(0), IntN(1), IntN(-1), IntN(10), IntN(60), Flt("1.5"), Flt("60.0"), Str(""), Str("x"), Str("60"), Bytes("x"), DtN(2024, 1, 1, 0, 0, 0, 0, None), DateN(2024, 1, 1),
         ListN(<<>>), ListN(<<IntN(1)>>), ListN(<<Str("x")>>), TupN(<<IntN(1)>>), TupN(<<>>), DictN(<<>>), DictN(<<Kv("a", IntN(1))>>), Obj, Col("a"), Fn("f", <<Col("a")>>), CondN(Col("a"), "EQ", Str("b")), OpN("EQ"), DirN("ASC"),
         ListN(<<Col("a")>>), ListN(<<CondN(Col("a"), "EQ", Str("b"))>>), OneN("limit", IntN(5)), OneN("offset", IntN(5)), OneN("extrap", True), OneN("totals", True), OneN("gran", IntN(60)), N("set", "", <<IntN(1)>>)>>
NA == Len(AnyV)
AnyS == {AnyV[i] : i \in 1..NA}
M1 == MetricN(Str("a.b"), None)
M2 == MetricN(None, Str("d:t/x@s"))
Ts(m, g) == TsN(m, "sum", None, None, g)
T0 == Ts(M1, None)
C0 == CondN(Col("a"), "EQ", Str("b"))
F0 == FormulaN("plus", <<T0, IntN(1)>>, None, None, None)
R0 == N("rollup", "", <<IntN(60), None, None, IntN(60)>>)
S0 == N("scope", "", <<ListN(<<IntN(1)>>), ListN(<<IntN(11)>>), Str("uc")>>)
Q0m == N("mq", "", <<T0, DtN(2024, 1, 1, 0, 0, 0, 0, None), DtN(2024, 1, 2, 0, 0, 0, 0, None), R0, S0, None, None, None, DictN(<<>>)>>)
Qe == N("query", "", <<E0, ListN(<<Count>>), None, None, None, None, None, None, None, None, None, None>>)
New(S) == {C("new", <<x>>) : x \in S}
Val(S) == {C("validate", <<x>>) : x \in S}

\* rollups: the full product of the interesting values
Ints == {None, IntN(-1), IntN(0), IntN(1), IntN(9), IntN(10), IntN(11), IntN(59), IntN(60), IntN(61), IntN(3599), IntN(3600), IntN(86399), IntN(86400), IntN(86401), IntN(1000000), True, False, Flt("60.0"), Str("60")}
Tots == {None, True, False, IntN(0), IntN(1), Str("true")}
Ords == {None, DirN("ASC"), DirN("DESC"), Str("ASC"), IntN(0), False}
Grs == {None, IntN(0), IntN(1), IntN(9), IntN(10), IntN(11), IntN(60), IntN(61), IntN(3600), IntN(86400), IntN(-10), True, False, Str("10"), Flt("10.0"), IntN(100), IntN(600), IntN(864000)}
Rollups == {N("rollup", "", <<i, t, o, g>>) : i \in Ints, t \in {None, True, False}, o \in {None, DirN("ASC"), DirN("DESC")}, g \in Grs}
Rollups2 == {N("rollup", "", <<i, t, o, g>>) : i \in {None, IntN(60), IntN(9)}, t \in Tots, o \in Ords, g \in {None, IntN(10), IntN(3600), IntN(7)}}
\* metrics, scopes
MetricsS == {N("metric", "", <<p, m, i>>) : p \in {None, Str(""), Str("a.b"), Str("not a name!"), IntN(1), True, Bytes("a"), ListN(<<Str("a")>>)}, m \in {None, Str(""), Str("d:t/x@s"), Str("x"), IntN(0), False, TupN(<<>>), Obj}, i \in {None, IntN(0), IntN(-1), IntN(5), True, Str("5"), Flt("1.0"), ListN(<<>>)}}
IdLists == {ListN(l) : l \in Seqs({IntN(1), IntN(2), True, Str("1"), None, Flt("1.0")}, 0, 2)} \cup {ListN(<<IntN(3), IntN(2), IntN(1), Str("x")>>), TupN(<<IntN(1)>>), TupN(<<>>), None, IntN(1), Str(""), Str("1"), DictN(<<>>), N("set", "", <<IntN(1)>>)}
ScopesS == {N("scope", "", <<o, ListN(<<IntN(1)>>), u>>) : o \in IdLists, u \in {None, Str("u")}} \cup {N("scope", "", <<ListN(<<IntN(1)>>), o, u>>) : o \in IdLists, u \in {None, Str("")}}
           \cup {N("scope", "", <<ListN(<<>>), ListN(<<>>), u>>) : u \in AnyS}
\* timeseries: every field with every kind of value, and lists with one element of another kind
Lst(x, a) == {ListN(<<x>>), ListN(<<x, a>>), ListN(<<a, x>>), ListN(<<a, a, x>>), TupN(<<x>>), TupN(<<a, x>>)}
LstAny(a) == {ListN(<<x>>) : x \in AnyS} \cup {ListN(<<a, x>>) : x \in AnyS} \cup {ListN(<<a, a, x>>) : x \in AnyS} \cup {TupN(<<a>>), ListN(<<a, a>>)}
TsS == {SetField(T0, i, x) : i \in 1..5, x \in AnyS \cup {M1, M2, T0, F0, R0, S0, Q0m}} \cup {SetField(T0, 3, x) : x \in LstAny(IntN(1))} \cup {SetField(T0, 4, x) : x \in LstAny(C0) \cup LstAny(AndN(<<C0, C0>>))} \cup {SetField(T0, 5, x) : x \in LstAny(Col("a")) \cup LstAny(AliasedN(Col("a"), Str("b")))}
       \cup {SetField(T0, 3, ListN(<<ListN(<<IntN(1)>>)>>)), SetField(T0, 3, ListN(<<Fn("f", <<>>)>>)), SetField(T0, 4, ListN(<<OrN(<<C0, C0>>), BcondN("AND", <<C0, C0>>)>>)), SetField(T0, 5, ListN(<<Fn("f", <<>>)>>)), SetField(T0, 5, ListN(<<Cfn("f", None, None, None)>>))}
\* formulas: group bys at every place of every shape
Gb == {None, ListN(<<>>), ListN(<<Col("x")>>), ListN(<<Col("y")>>), ListN(<<Col("x"), Col("y")>>), ListN(<<Col("y"), Col("x")>>), ListN(<<AliasedN(Col("x"), Str("y"))>>)}
GbFew == {None, ListN(<<>>), ListN(<<Col("x")>>), ListN(<<Col("y")>>)}
Fg(ps, g) == FormulaN("plus", ps, None, None, g)
Fs1 == {Fg(<<Ts(M1, a), Ts(M2, b)>>, c) : a \in Gb, b \in Gb, c \in Gb}
Fs2 == {Fg(<<Fg(<<Ts(M1, a), IntN(1)>>, b), Ts(M1, c)>>, d) : a \in GbFew, b \in GbFew, c \in GbFew, d \in GbFew}
Fs3 == {Fg(<<IntN(1), Fg(<<IntN(1), Fg(<<IntN(1), Ts(M1, a)>>, b)>>, c)>>, d) : a \in GbFew, b \in GbFew, c \in GbFew, d \in GbFew}
Fs4 == {FormulaN("negate", <<Fg(<<Fg(<<Ts(M1, a), Ts(M1, b)>>, None), Fg(<<Ts(M1, c), Flt("1.0")>>, None)>>, None)>>, None, None, d) : a \in GbFew, b \in GbFew, c \in GbFew, d \in {None, ListN(<<Col("x")>>)}}
\* formulas: what they are made of
Num1 == Fg(<<IntN(1), IntN(2)>>, None)
Pools == {<<>>, <<T0>>, <<IntN(1)>>, <<Num1>>, <<Num1, T0>>, <<T0, Num1>>, <<F0>>, <<Fg(<<Num1>>, None)>>, <<Fg(<<Num1, Fg(<<Num1, Num1>>, None)>>, None)>>, <<Fg(<<Num1, Fg(<<Num1, T0>>, None)>>, None)>>, <<T0, T0, T0, T0>>, <<True, T0>>, <<Flt("1.5"), T0>>}
PoolsAny == {<<T0, x>> : x \in AnyS} \cup {<<x>> : x \in AnyS} \cup {<<x, T0>> : x \in AnyS} \cup {<<T0, Fg(<<x, T0>>, None)>> : x \in AnyS} \cup {<<Fg(<<T0, Fg(<<T0, x>>, None)>>, None)>> : x \in AnyS} \cup {<<M1>>, <<R0, T0>>, <<T0, Q0m>>}
FsP == {FormulaN(f, p, None, None, None) : f \in {"plus", "negate", "f1", ""}, p \in Pools \cup PoolsAny} \cup {N("formula", "", <<Str("plus"), TupN(p), None, None, None>>) : p \in Pools \cup PoolsAny}
FsA == {SetField(F0, i, x) : i \in {1, 2}, x \in AnyS \cup {T0, F0}} \cup {N("formula", "", <<Str("plus"), ListN(<<T0, SetField(F0, 1, x)>>), None, None, None>>) : x \in AnyS} \cup {N("formula", "", <<Str("plus"), ListN(<<T0, SetField(F0, 2, x)>>), None, None, None>>) : x \in AnyS}
\* metrics queries
MqAny == {SetField(Q0m, i, x) : i \in 1..9, x \in AnyS \cup {M1, T0, F0, R0, S0, Q0m, Qe, Str("sum(a)"), Str("sum("), Str("1 + 2"), Str("f(1)"), Str("sum(a) by x + sum(b) by y"), Str("sum(a) by x + sum(b) by x"), Str("a"), Num1, Fg(<<Ts(M1, ListN(<<Col("x")>>)), Ts(M1, ListN(<<Col("y")>>))>>, None)}}
MqR == {SetField(Q0m, 4, r) : r \in {x \in Rollups : RollupErrs(x) = {}}}
MqF == {SetField(Q0m, 1, f) : f \in Fs2 \cup {FormulaN("f1", p, None, None, None) : p \in Pools}}
Two2 == {SetField(SetField(Q0m, 6, l), i, x) : l \in {None, OneN("limit", IntN(1))}, i \in {2, 3, 4, 5}, x \in {None, True, IntN(0), Str("")}}
\* setters
Set3(o, f, x) == C("set", <<o, Str(f), x>>)
Setters == {Set3(Q0m, f, x) : f \in {"query", "start", "end", "rollup", "scope", "limit", "offset", "extrapolate"}, x \in AnyS \cup {T0, F0, R0, S0, M1, Q0m, Str("sum(a)"), IntN(10000), IntN(10001)}} \cup {Set3(Q0m, "indexer_mappings", x) : x \in {DictN(<<>>), DictN(<<Kv("a", IntN(1))>>)}}
           \cup {Set3(T0, f, x) : f \in {"metric", "filters", "groupby"}, x \in AnyS \cup {M1, M2, T0}} \cup {Set3(T0, "filters", x) : x \in LstAny(C0)} \cup {Set3(T0, "groupby", x) : x \in LstAny(Col("a"))} \cup {C("set", <<t, Str("aggregate"), a, p>>) : t \in {T0, SetField(T0, 3, ListN(<<IntN(1)>>))}, a \in {Str("sum"), Str("max"), None, IntN(1), Str("")}, p \in {None, ListN(<<>>), ListN(<<IntN(1)>>), ListN(<<Col("a")>>), TupN(<<IntN(1)>>), Str("x")}}
           \cup {Set3(F0, f, x) : f \in {"parameters", "filters", "groupby"}, x \in AnyS \cup {T0}} \cup {Set3(F0, "parameters", x) : x \in LstAny(T0) \cup LstAny(IntN(1))} \cup {Set3(F0, "filters", x) : x \in LstAny(C0)} \cup {Set3(F0, "groupby", x) : x \in LstAny(Col("a"))}
           \cup {Set3(m, f, x) : m \in {M1, M2, N("metric", "", <<Str("a"), Str("b"), IntN(1)>>)}, f \in {"public_name", "mri", "id"}, x \in AnyS} \cup {Set3(S0, "use_case_id", x) : x \in AnyS}
\* rows: one element among many, at every place of a list
RowAt == {<<n, p>> \in {2, 3, 4, 5, 8, 9, 17, 33, 65} \X (1..65) : p <= n /\ (p <= 5 \/ p >= n - 1)}
Row(x, np, f) == [i \in 1..np[1] |-> IF i = np[2] THEN x ELSE f]
OddC == {C0, OrN(<<C0, C0>>), AndN(<<C0, C0>>), Col("a"), Str("x"), None, T0, Obj}
OddG == {Col("a"), AliasedN(Col("a"), Str("b")), Fn("f", <<Col("a")>>), Str("x"), None, C0}
OddA == {IntN(1), Str("x"), Flt("0.5"), True, None, Col("a"), ListN(<<>>), Bytes("x"), DateN(2024, 1, 1)}
OddP == {T0, F0, Num1, IntN(2), Str("2"), None, M1, True, ListN(<<T0>>), Ts(M1, ListN(<<Col("y")>>)), Fg(<<Ts(M1, ListN(<<Col("y")>>)), IntN(1)>>, None)}
OddI == {IntN(2), True, Str("1"), None, Flt("1.0")}
RowsM(i) ==
    CASE i = 1 -> New({SetField(T0, 4, ListN(Row(x, np, C0))) : x \in OddC, np \in RowAt}) \cup New({SetField(T0, 5, ListN(Row(x, np, Col("g")))) : x \in OddG, np \in RowAt}) \cup New({SetField(T0, 3, ListN(Row(x, np, IntN(7)))) : x \in OddA, np \in RowAt})
      [] i = 2 -> Val({SetField(F0, 4, ListN(Row(x, np, C0))) : x \in OddC, np \in RowAt}) \cup Val({SetField(F0, 5, ListN(Row(x, np, Col("g")))) : x \in OddG, np \in RowAt}) \cup Val({SetField(F0, 3, ListN(Row(x, np, IntN(7)))) : x \in OddA, np \in RowAt})
      [] i = 3 -> Val({FormulaN("f1", Row(x, np, f), None, None, g) : x \in OddP, np \in RowAt, f \in {Ts(M1, ListN(<<Col("x")>>)), IntN(1)}, g \in {None, ListN(<<Col("x")>>)}})
      [] i = 4 -> Val({SetField(Q0m, 1, Fg(<<IntN(1), FormulaN("f1", Row(x, np, f), None, None, None)>>, None)) : x \in OddP, np \in RowAt, f \in {Ts(M1, ListN(<<Col("x")>>)), IntN(1)}})
      [] i = 5 -> New({N("scope", "", <<ListN(Row(x, np, IntN(1))), ListN(<<IntN(1)>>), None>>) : x \in OddI, np \in RowAt}) \cup New({N("scope", "", <<ListN(<<IntN(1)>>), ListN(Row(x, np, IntN(1))), Str("u")>>) : x \in OddI, np \in RowAt})
NRow == 5
McGroups == 12 + NRow
McCases(g) ==
    CASE g = 1 -> New(Rollups)
      [] g = 2 -> New(Rollups2) \cup New(MetricsS)
      [] g = 3 -> New(ScopesS)
      [] g = 4 -> New(TsS)
      [] g = 5 -> Val(Fs1)
      [] g = 6 -> Val(Fs2)
      [] g = 7 -> Val(Fs3)
      [] g = 8 -> Val(Fs4)
      [] g = 9 -> Val(FsP) \cup Val(FsA)
      [] g = 10 -> Val(MqAny) \cup Val(MqF) \cup {C(op, <<q>>) : op \in {"serialize", "print"}, q \in MqAny}
      [] g = 11 -> Val(MqR) \cup Val(Two2) \cup {C("serialize", <<q>>) : q \in Two2}
      [] g = 12 -> Setters
      [] g > 12 -> RowsM(g - 12)
------------------------------------------------------------------------------
(* Laws *)
X == last[2][1]
\* a formula is valid exactly if the same is true after removing what cannot matter: numbers beside a timeseries
LawTs == (Done /\ G \in {5, 6, 7, 8}) => (FormulaErrs(X) = {} <=> Cardinality({x.c[5].c : x \in {y \in Operands(X) : y.k # "int" /\ y.k # "float" /\ ~IsNone(y.c[5])}}) <= 1)
\* a rollup says what to return
LawRollup == (Done /\ G = 1 /\ RollupErrs(X) = {}) => (~IsNone(X.c[1]) \/ ~IsNone(X.c[2])) /\ (IsNone(X.c[1]) \/ IsNone(X.c[3])) /\ (IsNone(X.c[1]) \/ IsNone(X.c[4]) \/ ~Less10(X.c[1].v, X.c[4].v))
\* serializing needs everything validating needs
LawMq == (Done /\ X.k = "mq" /\ last[1] = "serialize") => (MqErrs(X) \subseteq MqSerErrs(X))
Laws == LawTs /\ LawRollup /\ LawMq
==============================================================================
