------------------------------- MODULE McLegacy -------------------------------
(***************************************************************************)
(* C15: legacy bodies, key by key and in pairs of keys.                     *)
(***************************************************************************)
EXTENDS Mc

\* keys in alphabetical order
Keys == <<"aggregations", "app_id", "arrayjoin", "conditions", "consistent", "dataset", "debug", "dry_run", "from_date", "granularity", "groupby", "having", "limit", "limitby", "offset", "orderby", "organization", "project", "sample", "selected_columns", "tenant_ids", "to_date", "totals", "turbo", "unknown">>
NK == Len(Keys)
S(x) == Str(x)
L(x) == ListN(x)
\* a body from a function of keys
Body(f) == DictN(ConcatAll([i \in 1..NK |-> IF Keys[i] \in DOMAIN f THEN <<Kv(Keys[i], f[Keys[i]])>> ELSE <<>>]))
B0 == [selected_columns |-> L(<<S("a")>>)]
D0 == "2020-10-15T12:30:45"
Cn(l, o, r) == L(<<l, S(o), r>>)

Exps == {S("a"), S("tags[x]"), S("a.b"), S("'lit'"), S("''"), S("'it''s'"), S("bad name!"), S("_x"), S("'"), S("a'"), S("'a"), IntN(1), None, Flt("1.5"), True, S(D0), S("'" \o D0 \o "'"), S("a:b"), S("1"), S("-a")}
\* functions [name, params, alias]
Fns == {L(<<S(f), p>>) : f \in {"f", "count()", "f1", "uniq", "1x", "count(", "count)", "()"}, p \in {None, L(<<>>), S(""), S("a"), L(<<S("a")>>), L(<<S("a"), S("'x'"), IntN(1)>>), L(<<L(<<S("g"), L(<<S("a")>>)>>)>>), L(<<L(<<S("g"), None, S("al")>>), S("b")>>), IntN(1), S("'x'"), S(D0), L(<<S(D0)>>), L(<<None>>), L(<<L(<<S("a"), S("="), S("x")>>), IntN(1)>>)}}
       \cup {L(<<S(f), p, al>>) : f \in {"f", "count()"}, p \in {None, S(""), S("a"), L(<<S("a"), S("b")>>)}, al \in {None, S(""), S("al"), S("`al`"), S("`al"), S("al`"), S("``"), S("`"), S("`a`b`"), S("bad alias`"), S("a b"), S("`tags[x]`")}}
NestF == {L(<<S("f"), L(<<x, L(<<S("g"), L(<<y, L(<<S("h"), L(<<x>>), S("in")>>)>>)>>)>>), S("out")>>) : x \in {S("a"), S("'x'"), IntN(1), S("tags[k]")}, y \in {S("b"), S("''"), None, Flt("0.5"), S(D0)}}
Tuples(Z) == {TupN(z.c) : z \in Z}
OpTexts == {OpText[o] : o \in OpNames}
OpAll == OpTexts \cup {"in", "not in", "is null", "like", "Not Like", "==", "", "is not null", "<>"}
Lhs == {S("a"), S("tags[x]"), S("release"), S("releases"), S("tags"), S("tagsx[y]"), S("contexts[tags]"), L(<<S("ifNull"), L(<<S("tags[x]"), S("''")>>)>>), L(<<S("ifNull"), L(<<S("release"), S("''")>>)>>), L(<<S("ifNull"), L(<<S("a"), S("tags[x]")>>)>>), L(<<S("ifNull"), L(<<S("tags[x]")>>)>>), L(<<S("ifNull"), L(<<S("tags[x]"), S("''"), IntN(1)>>)>>), L(<<S("ifNull"), L(<<S("release"), S("a"), S("b"), S("''")>>)>>), L(<<S("ifnull"), L(<<S("release"), S("''")>>)>>), L(<<S("ifNull"), L(<<S("''"), S("release")>>)>>), L(<<S("ifNull"), L(<<S("release"), S("''")>>), S("al")>>), L(<<S("coalesce"), L(<<S("tags[x]"), S("''")>>)>>), L(<<S("ifNull"), L(<<L(<<S("f"), L(<<S("tags[x]")>>)>>), S("''")>>)>>)}
Dates == {D0, "2020-10-15T12:30:45.123456", "2020-10-15T12:30:45.1", "2020-10-15T12:30:45+00:00", "2020-10-15T12:30:45+0530", "2020-10-15T12:30:45-05:00", "2020-10-15T12:30:45Z", "2020-10-15", "2020-10-15 12:30:45", "2020-13-15T12:30:45", "2020-02-30T12:30:45", "2020-02-29T00:00:00", "2021-02-29T00:00:00", "2020-10-15T24:00:00", "2020-10-15T12:30:45.1234567", "2020-10-15T12:30", "0001-01-01T00:00:00", "9999-12-31T23:59:59.999999", "2020-10-15T12:30:45 ", "x2020-10-15T12:30:45", "2020-10-15T12:30:60", "1+1", "a+b:c", ""}
Rhs == {S("x"), S("'x'"), S(""), IntN(1), None, True, Flt("1.5"), L(<<S("x"), S("y")>>), L(<<IntN(2), IntN(1), IntN(2)>>), TupN(<<S("x")>>), L(<<>>), L(<<S(D0), S("x")>>), L(<<L(<<S(D0)>>), IntN(1)>>), S("a%"), S("a") }
Conds1 == {Cn(l, o, r) : l \in {S("a"), S("tags[x]")}, o \in OpAll, r \in Rhs} \cup {TupN(<<S("a"), S(o), r>>) : o \in {"=", "IN", "is null"}, r \in Rhs}
Conds2 == {Cn(l, o, S(d)) : l \in Lhs, o \in {"=", "!=", ">="}, d \in {D0, "x", "2020-10-15T12:30:45+00:00"}} \cup {Cn(l, "IN", L(<<S(D0), S("x")>>)) : l \in Lhs} \cup {Cn(S(c), "=", S(d)) : c \in {"a", "release", "tags[x]"}, d \in Dates}
C1 == Cn(S("a"), "=", IntN(1))
C2 == Cn(S("tags[b]"), "LIKE", S("x%"))
C3 == Cn(S("c"), "IS NULL", None)
C4 == Cn(L(<<S("f"), L(<<S("a")>>)>>), ">", IntN(0))
Cs == {C1, C2, C3, C4}
Groups1 == {L(<<x>>) : x \in Cs} \cup {L(<<x, y>>) : x \in Cs, y \in Cs} \cup {L(<<x, y, z>>) : x \in {C1, C2}, y \in Cs, z \in Cs} \cup {L(<<>>), L(<<C1, C1, C1, C1>>), TupN(<<C1, C2>>), L(<<L(<<C1>>)>>), L(<<C1, L(<<C2>>)>>)}
CondLists == {L(<<x>>) : x \in Groups1} \cup {L(<<x, y>>) : x \in Groups1, y \in Cs} \cup {L(<<x, y>>) : x \in Cs, y \in {L(<<C1, C2>>), L(<<C3>>), L(<<>>)}} \cup {L(<<>>), L(<<C1, C2, C3, C4>>), TupN(<<C1>>)}
Orders == {S(x) : x \in {"a", "-a", "--a", "a-", "-", "-tags[x]", "'x'", "-'x'", "", "bad!", "-bad!"}} \cup {L(<<S(f), p>>) : f \in {"f", "-f", "--f", "-count()"}, p \in {None, L(<<>>), L(<<S("a")>>), L(<<S("-a")>>), S("")}} \cup {L(<<S("-f"), L(<<S("a")>>), S("al")>>)}
OrderLists == {x : x \in {y \in Orders : y.k = "str"}} \cup {L(<<x>>) : x \in Orders} \cup {L(<<x, y>>) : x \in Orders, y \in {S("-b"), S("c"), L(<<S("-g"), L(<<S("d")>>)>>)}} \cup {L(<<>>)}
Ids == {IntN(0), IntN(1), IntN(-1), True, None, L(<<>>), L(<<IntN(1)>>), L(<<IntN(3), IntN(1), IntN(2)>>), L(<<IntN(2), IntN(2), IntN(1)>>), TupN(<<IntN(2), IntN(1)>>), TupN(<<>>), L(<<S("1")>>), L(<<S(D0)>>), TupN(<<IntN(5)>>), L(<<IntN(0)>>)}
Nums == {None, IntN(0), IntN(1), IntN(-1), IntN(100), IntN(10000), IntN(10001), S("5"), Flt("1.5"), True, False}
LimitBys == {L(<<IntN(n), S(c)>>) : n \in {0, 1, 5, 10000, 10001, -1}, c \in {"a", "tags[x]", "bad!", "-a", " a", "a ", "'a'", "`a`", "a-", "A", "", "a.b", "f(a)", "tags[-x]", "-tags[x]", "e.a", "1", D0}} \cup {L(<<S("5"), S("a")>>), L(<<IntN(5), None>>), L(<<IntN(5), IntN(1)>>), L(<<None, S("a")>>), TupN(<<IntN(5), S("a")>>), None, L(<<>>)}
Bools == {None, True, False}
Ent1 == {"events", "errors", "discover", "discover_transactions", "sessions", "spans", "transactions", "outcomes", "replays", "search_issues", "outcomes_raw", "discover_events", "unknown", "metrics_sets"}
\* per-key pools
Pool(k) ==
    CASE k = "aggregations" -> {L(<<x>>) : x \in Fns \cup Tuples(Fns)} \cup {L(<<>>), L(<<L(<<S("count()"), S(""), S("c")>>), L(<<S("uniq"), S("a"), S("u")>>)>>), TupN(<<L(<<S("f"), S("a"), S("u")>>)>>)}
      [] k = "selected_columns" -> {L(<<x>>) : x \in Exps \cup Fns \cup Tuples(Fns) \cup NestF} \cup {L(<<>>), L(<<S("b"), S("a"), S("b")>>), TupN(<<S("a"), S("b")>>), L(<<S("a"), L(<<S("f"), L(<<S("a")>>), S("x")>>), S("c")>>)}
      [] k = "groupby" -> {S("a"), S("tags[x]"), S("")} \cup {L(<<x>>) : x \in Exps \cup NestF} \cup {L(<<>>), L(<<S("b"), S("a"), S("b")>>), L(<<TupN(<<S("f"), L(<<S("a")>>)>>), S("c")>>)}
      [] k = "arrayjoin" -> {S(c) : c \in {"a", "a.b", "tags[x]", "", "bad!", "-a", " a", "a ", "'a'", "`a`", "a-", "A", "f(a)", "-tags[x]", "1", D0}} \cup {None}
      [] k = "conditions" -> CondLists
      [] k = "having" -> CondLists
      [] k = "orderby" -> OrderLists
      [] k \in {"organization", "project"} -> Ids
      [] k \in {"from_date", "to_date"} -> {S(d) : d \in Dates} \cup {None}
      [] k \in {"limit", "offset", "granularity"} -> Nums
      [] k = "totals" -> Bools \cup {IntN(1)}
      [] k = "limitby" -> LimitBys
      [] k = "sample" -> {None, IntN(0), IntN(1), IntN(10), Flt("0.1"), Flt("1.5"), Flt("-0.5"), IntN(-1), Flt("0.0")}
      [] k \in {"consistent", "turbo", "debug", "dry_run"} -> Bools
      [] k \in {"dataset", "app_id"} -> {None, S(""), S("x"), S("bad id!")}
      [] k = "tenant_ids" -> {None, DictN(<<>>), DictN(<<Kv("org", IntN(1))>>), DictN(<<Kv("a", S("b")), Kv("c", IntN(2))>>)}
      [] k = "unknown" -> {None, IntN(1), S("x")}
\* one or two values per key, for pairs of keys
Few(k) ==
    CASE k = "aggregations" -> {L(<<L(<<S("count()"), S(""), S("c")>>)>>), L(<<TupN(<<S("uniq"), L(<<S("a"), S("b")>>), S("u")>>)>>)}
      [] k = "selected_columns" -> {L(<<S("a"), S("b")>>), L(<<>>)}
      [] k = "groupby" -> {S("a"), L(<<S("b"), S("a")>>)}
      [] k = "arrayjoin" -> {S("a")}
      [] k = "conditions" -> {L(<<C1, L(<<C2, C3>>)>>), L(<<Cn(S("release"), "=", S(D0))>>)}
      [] k = "having" -> {L(<<L(<<C1, C1>>)>>), L(<<C4>>)}
      [] k = "orderby" -> {S("-a"), L(<<S("a"), L(<<S("-f"), L(<<S("b")>>)>>)>>)}
      [] k \in {"organization", "project"} -> {IntN(7), L(<<IntN(2), IntN(1)>>)}
      [] k \in {"from_date", "to_date"} -> {S(D0), S("2021-01-01T00:00:00+00:00")}
      [] k \in {"limit", "offset", "granularity"} -> {IntN(1), IntN(60)}
      [] k = "totals" -> {True, False}
      [] k = "limitby" -> {L(<<IntN(5), S("a")>>)}
      [] k = "sample" -> {Flt("0.1"), IntN(1)}
      [] k \in {"consistent", "turbo", "debug", "dry_run"} -> {True, False}
      [] k \in {"dataset", "app_id"} -> {S("x")}
      [] k = "tenant_ids" -> {DictN(<<Kv("org", IntN(1))>>)}
      [] k = "unknown" -> {IntN(1)}
Leg(f, e) == C("legacy", <<Body(f), Str(e)>>)
One(k) == {Leg((k :> v) @@ B0, "events") : v \in Pool(k)}
PairsOf(i) == UNION {{Leg((Keys[i] :> v) @@ (Keys[j] :> w) @@ B0, "events") : v \in Few(Keys[i]), w \in Few(Keys[j])} : j \in (i + 1)..NK}
Ents == {Leg([from_date |-> S(D0), to_date |-> S("2020-10-16T00:00:00"), project |-> p, organization |-> o, selected_columns |-> L(<<S("a")>>)], e) : p \in {None, IntN(1), L(<<IntN(2), IntN(1)>>)}, o \in {None, IntN(1), L(<<IntN(2), IntN(1)>>)}, e \in Ent1}
       \cup {Leg([from_date |-> S(d), selected_columns |-> L(<<S("a")>>)], e) : d \in Dates, e \in {"transactions", "unknown"}}
ExprIn == {Leg((k :> L(<<x>>)) @@ B0, "events") : k \in {"selected_columns", "groupby", "orderby", "aggregations"}, x \in Fns \cup NestF}
CondIn == {Leg((k :> L(<<x>>)) @@ B0, "events") : k \in {"conditions", "having"}, x \in Conds1 \cup Conds2} \cup {Leg([conditions |-> L(<<L(<<C1, x>>)>>), selected_columns |-> L(<<S("a")>>)], "events") : x \in Conds2}
CondFns == {Leg([selected_columns |-> L(<<L(<<S("f"), L(<<x, IntN(1)>>)>>)>>)], "events") : x \in Conds1 \cup Conds2}
(* Neighbours: elements that agree in a part, in one list and in two keys *)
NearC == {C1, C2, C3, C4, Cn(S("a"), "=", True), Cn(S("a"), "=", S("1")), Cn(S("a"), "=", Flt("1.0")), Cn(S("a"), "!=", IntN(1)), Cn(S("b"), "=", IntN(1)), TupN(<<S("a"), S("="), IntN(1)>>), Cn(S("project_id"), "IN", L(<<IntN(1)>>)), Cn(S("project_id"), "IN", TupN(<<IntN(1)>>)), Cn(S("project_id"), "=", IntN(1)), Cn(S("org_id"), "=", IntN(1)),
          Cn(S("timestamp"), ">=", S(D0)), Cn(S("timestamp"), "<", S(D0)), Cn(S("a"), "=", S("'x'")), Cn(S("a"), "=", S("x")), L(<<C1, C2>>), L(<<C2, C1>>), L(<<C1, C1>>), L(<<C1>>), Cn(L(<<S("f"), L(<<S("a")>>), S("x")>>), ">", IntN(0)), Cn(S("tags[x]"), "=", S(D0)), Cn(S("x"), "=", S(D0))}
NearL == {L(<<S("f"), p>>) : p \in {None, L(<<>>), S("a"), L(<<S("a")>>), L(<<S("b")>>), L(<<S("'a'")>>), L(<<IntN(1)>>), L(<<True>>), L(<<S("a"), S("a")>>)}} \cup {L(<<S(f), L(<<S(a)>>), S(x)>>) : f \in {"f", "g"}, a \in {"a", "b"}, x \in {"x", "a"}}
NearE == NearL \cup {S("a"), S("b"), S("x"), S("tags[a]"), S("'a'"), S("A")}
NearO == {S("a"), S("-a"), S("b"), S("-x"), L(<<S("f"), L(<<S("a")>>)>>), L(<<S("-f"), L(<<S("a")>>)>>), L(<<S("-f"), L(<<S("a")>>), S("x")>>)}
K2(k, l, v, w) == Leg((k :> v) @@ (l :> w) @@ [selected_columns |-> L(<<S("z")>>), project |-> IntN(1), organization |-> IntN(1), from_date |-> S(D0), to_date |-> S(D0)], "events")
K1(k, v) == Leg((k :> v) @@ [selected_columns |-> L(<<S("z")>>), project |-> L(<<IntN(1)>>)], "events")
NearCases(i) ==
    CASE i = 1 -> {K1("conditions", L(<<x, y>>)) : x \in NearC, y \in NearC}
      [] i = 2 -> {K2("conditions", "having", L(<<x>>), L(<<y>>)) : x \in NearC, y \in NearC}
      [] i = 3 -> {K1("having", L(<<L(<<x, y>>), x>>)) : x \in {c \in NearC : c.c[1].k = "str"}, y \in {c \in NearC : c.c[1].k = "str"}}
      [] i = 4 -> {K1("selected_columns", L(<<x, y>>)) : x \in NearE, y \in NearE}
      [] i = 5 -> {K1("groupby", L(<<x, y>>)) : x \in NearE, y \in NearE}
      [] i = 6 -> {K2("selected_columns", "groupby", L(<<x>>), L(<<y>>)) : x \in NearE, y \in NearE}
      [] i = 7 -> {K2("selected_columns", "aggregations", L(<<x>>), L(<<y>>)) : x \in NearE, y \in NearL}
      [] i = 8 -> {K1("aggregations", L(<<x, y>>)) : x \in NearL, y \in NearL}
      [] i = 9 -> {K1("orderby", L(<<x, y>>)) : x \in NearO, y \in NearO}
      [] i = 10 -> {K2("selected_columns", "orderby", L(<<x>>), L(<<y>>)) : x \in NearE, y \in NearO}
      [] i = 11 -> {K2("groupby", "aggregations", L(<<x>>), L(<<y>>)) : x \in NearE, y \in NearL}
      [] i = 12 -> {K1("selected_columns", L(<<L(<<S("h"), L(<<x, y>>)>>)>>)) : x \in NearE, y \in NearE}
NNear == 12
(* Rows: one element among many, at every place of a list *)
RowLens == IF Deep THEN {2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 32, 33, 64, 65} ELSE {2, 3, 4, 5, 8, 9, 17}
RowAt == {<<n, p>> \in RowLens \X (1..65) : p <= n /\ (p <= 5 \/ p >= n - 1)}
Row(x, np, f) == L([i \in 1..np[1] |-> IF i = np[2] THEN x ELSE f])
FnX == L(<<S("f"), L(<<S("a"), S("'x'")>>), S("al")>>)
RECURSIVE Tower(_, _)
Tower(x, n) == IF n = 0 THEN x ELSE L(<<S("f" \o ToString(n)), L(<<S("'t'"), Tower(x, n - 1), IntN(n)>>)>>)
RowCases(i) ==
    CASE i = 1 -> {K1(k, Row(x, np, C1)) : k \in {"conditions", "having"}, x \in Cs \cup {L(<<C1, C2>>), L(<<C3>>), L(<<>>), Cn(S("tags[x]"), "=", S(D0))}, np \in RowAt}
      [] i = 2 -> {K1("conditions", L(<<C2, Row(x, np, C1)>>)) : x \in Cs \cup {Cn(S("tags[x]"), "=", S(D0)), Cn(S("x"), "IN", L(<<S(D0)>>))}, np \in RowAt}
      [] i = 3 -> {K1("selected_columns", Row(x, np, f)) : x \in {FnX, S("'lit'"), S("tags[x]"), S("b")}, f \in {S("a"), L(<<S("g"), L(<<S("a")>>)>>)}, np \in RowAt} \cup {K1("groupby", Row(x, np, f)) : x \in {FnX, S("tags[x]"), S("b")}, f \in {S("a"), L(<<S("g"), L(<<S("a")>>)>>)}, np \in RowAt}
      [] i = 4 -> {K1("aggregations", Row(x, np, L(<<S("count()"), S(""), S("c")>>))) : x \in {FnX, L(<<S("uniq"), S("a"), S("u")>>), TupN(<<S("uniq"), S("a"), S("u")>>)}, np \in RowAt}
      [] i = 5 -> {K1("orderby", Row(x, np, f)) : x \in {S("-b"), S("b"), L(<<S("-f"), L(<<S("a")>>)>>), FnX}, f \in {S("a"), S("-a")}, np \in RowAt}
      [] i = 6 -> {K1("selected_columns", L(<<L(<<S("h"), Row(x, np, f), S("al")>>)>>)) : x \in {FnX, S("'lit'"), S("b"), S(D0), IntN(1), None, S("''"), Cn(S("a"), "=", S("x"))}, f \in {S("a"), IntN(7), S("'x'")}, np \in RowAt}
      [] i = 7 -> {K1("conditions", L(<<Cn(l, o, Row(x, np, f))>>)) : l \in {S("a"), S("tags[x]")}, o \in {"IN", "NOT IN"}, x \in {S(D0), S("'x'"), IntN(1), L(<<S(D0), S("y")>>)}, f \in {S("x"), IntN(7)}, np \in RowAt}
      [] i = 8 -> {K1(k, Row(IntN(9), np, IntN(7))) : k \in {"project", "organization"}, np \in RowAt} \cup {K1(k, Row(S(D0), np, IntN(7))) : k \in {"project", "organization"}, np \in RowAt}
      [] i = 9 -> {K1("selected_columns", L(<<Tower(x, n)>>)) : x \in Exps \cup {FnX, C1, Cn(S("tags[x]"), "=", S(D0))}, n \in 1..7} \cup {K1("conditions", L(<<Cn(Tower(x, n), ">", S(D0))>>)) : x \in {S("tags[x]"), S("release"), S("a")}, n \in 1..6} \cup {K1("orderby", L(<<Tower(x, n)>>)) : x \in {S("a"), S("-a")}, n \in 1..5}
NRow == 9
McGroups == 2 * NK + 4 + NNear + NRow
McCases(g) ==
    CASE g <= NK -> One(Keys[g])
      [] g <= 2 * NK -> PairsOf(g - NK)
      [] g = 2 * NK + 1 -> Ents
      [] g = 2 * NK + 2 -> ExprIn
      [] g = 2 * NK + 3 -> CondIn
      [] g = 2 * NK + 4 -> CondFns
      [] g > 2 * NK + 4 + NNear -> RowCases(g - 2 * NK - 4 - NNear)
      [] OTHER -> NearCases(g - 2 * NK - 4)
------------------------------------------------------------------------------
(* Laws *)
Bd == last[2][1]
Req == LegacyRequest(Bd, last[2][2].v)
LawOk == (Done /\ LegacyErrs(Bd, last[2][2].v) = {}) =>
    \* the query is one the SDK accepts piece by piece
    /\ Req.c[3].k = "query" /\ QMatch(Req.c[3]).k = "entity"
    \* every clause of the body is there and no other
    /\ (Truthy(Get(Bd, "conditions")) /\ \E i \in 1..Len(Get(Bd, "conditions").c) : Truthy(Get(Bd, "conditions").c[i])) => Truthy(QWhere(Req.c[3]))
    /\ (~Truthy(Get(Bd, "having")) => ~Truthy(Req.c[3].c[6]))
    /\ Req.c[4].c[6] = True
Laws == LawOk
==============================================================================
