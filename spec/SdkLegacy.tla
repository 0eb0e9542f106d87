----------------------------- MODULE SdkLegacy -----------------------------
(***************************************************************************)
(* What a legacy JSON body means as a request.  Errors are carried as a    *)
(* node of kind "err" (v = exception class); an error anywhere makes the   *)
(* conversion raise.                                                       *)
(***************************************************************************)
EXTENDS SdkFind

Err(cls) == N("err", cls, <<>>)
IsErr(n) == n.k = "err"
\* Construct: the node itself, or the error its constructor raises
Mk(n) == IF \E i \in 1..Len(n.c) : IsErr(n.c[i]) THEN n.c[CHOOSE i \in 1..Len(n.c) : IsErr(n.c[i])]
         ELSE LET es == ExprErrs(n) IN IF es = {} THEN n ELSE Err(CHOOSE e \in es : TRUE)
MkList(seq) == IF \E i \in 1..Len(seq) : IsErr(seq[i]) THEN seq[CHOOSE i \in 1..Len(seq) : IsErr(seq[i])] ELSE ListN(seq)

Get(body, key) == LET ix == {i \in 1..Len(body.c) : body.c[i].v = key}
                  IN IF ix = {} THEN None ELSE body.c[CHOOSE i \in ix : TRUE].c[1]

------------------------------------------------------------------------------
(* Date strings *)
TwoDigits(s, i) == i + 1 <= Len(s) /\ Ch(s, i) \in Digit /\ Ch(s, i + 1) \in Digit
Two(s, i) == Nat10(SubSeq(s, i, i + 1))
DateShape(s) == /\ Len(s) >= 19
                /\ AllIn(SubSeq(s, 1, 4), Digit) /\ Ch(s, 5) = "-" /\ TwoDigits(s, 6) /\ Ch(s, 8) = "-"
                /\ TwoDigits(s, 9) /\ Ch(s, 11) = "T" /\ TwoDigits(s, 12) /\ Ch(s, 14) = ":"
                /\ TwoDigits(s, 15) /\ Ch(s, 17) = ":" /\ TwoDigits(s, 18)
DateRange(s) == LET y == Nat10(SubSeq(s, 1, 4))  m == Two(s, 6)  d == Two(s, 9)
                IN y >= 1 /\ m \in 1..12 /\ d >= 1 /\ d <= MonthLen(y, m)
                   /\ Two(s, 12) <= 23 /\ Two(s, 15) <= 59 /\ Two(s, 18) <= 59
\* what follows the seconds: "" / ".ffffff" / an offset
PadRight(t, w) == t \o Zeros(w - Len(t))
FracTail(t) == Len(t) \in 2..7 /\ Ch(t, 1) = "." /\ AllIn(From(t, 2), Digit)
\* [+-]HH[:]MM, or Z
OffTail(t) ==
    \/ t = "Z"
    \/ /\ t # "" /\ Ch(t, 1) \in {"+", "-"}
       /\ LET u == From(t, 2)
          IN \/ Len(u) = 4 /\ AllIn(u, Digit) /\ Two(u, 3) <= 59
             \/ Len(u) = 5 /\ TwoDigits(u, 1) /\ Ch(u, 3) = ":" /\ TwoDigits(u, 4) /\ Two(u, 4) <= 59
OffSecs(t) ==
    IF t = "Z" THEN 0
    ELSE LET u == From(t, 2)
             mm == IF Len(u) = 4 THEN Two(u, 3) ELSE Two(u, 4)
             a == 3600 * Two(u, 1) + 60 * mm
         IN IF Ch(t, 1) = "-" THEN 0 - a ELSE a
\* the offset must be below a day
IsDate(s) == DateShape(s) /\ DateRange(s)
             /\ LET t == From(s, 20) IN t = "" \/ FracTail(t) \/ (OffTail(t) /\ Abs(OffSecs(t)) < 86400)
DateNode(s) ==
    LET t == From(s, 20)
    IN N("dt", "", <<IntN(Nat10(SubSeq(s, 1, 4))), IntN(Two(s, 6)), IntN(Two(s, 9)), IntN(Two(s, 12)),
                     IntN(Two(s, 15)), IntN(Two(s, 18)),
                     IntN(IF FracTail(t) THEN Nat10(PadRight(From(t, 2), 6)) ELSE 0),
                     IF t # "" /\ OffTail(t) THEN IntN(OffSecs(t)) ELSE None>>)

RECURSIVE LegScalar(_, _)
LegScalar(n, onlyStr) ==
    CASE n.k \in {"list", "tuple", "set"} -> TupN([i \in 1..Len(n.c) |-> LegScalar(n.c[i], onlyStr)])
      [] n.k = "str" /\ ~onlyStr /\ IsDate(n.v) -> DateNode(n.v)
      [] OTHER -> n

------------------------------------------------------------------------------
OpByText == [t \in {OpText[o] : o \in OpNames} |-> CHOOSE o \in OpNames : OpText[o] = t]
CondFn == ("EQ" :> "equals") @@ ("NEQ" :> "notEquals") @@ ("LTE" :> "lessOrEquals") @@ ("GTE" :> "greaterOrEquals")
          @@ ("LT" :> "less") @@ ("GT" :> "greater") @@ ("IS_NULL" :> "isNull") @@ ("IS_NOT_NULL" :> "isNotNull")
          @@ ("LIKE" :> "like") @@ ("NOT_LIKE" :> "notLike") @@ ("IN" :> "in") @@ ("NOT_IN" :> "notIn")
IsCondition(n) ==
    /\ n.k \in {"list", "tuple"} /\ Len(n.c) = 3
    /\ n.c[2].k = "str" /\ ToUpper(n.c[2].v) \in DOMAIN OpByText
    /\ n.c[1].k \in {"str", "tuple", "list"}
TagOrRelease(x) == x.k = "col" /\ ((HasSub(x.c[1].v) /\ Subscriptable(x.c[1].v) = "tags") \/ x.c[1].v = "release")
OnlyStrings(lhs) ==
    \/ TagOrRelease(lhs)
    \/ /\ lhs.k = "fn" /\ FName(lhs).v = "ifNull" /\ FParams(lhs).k \in SeqKinds
       /\ Len(FParams(lhs).c) > 1 /\ TagOrRelease(FParams(lhs).c[1])

Ticked(s) == StartsWith(s, "`") /\ EndsWith(s, "`")
Inside(s) == IF Len(s) <= 2 THEN "" ELSE SubSeq(s, 2, Len(s) - 1)
RECURSIVE LegExp(_)
\* lhs, operator, rhs of a legacy condition
LegParts(n) ==
    LET lhs == LegExp(n.c[1])
        op == OpByText[ToUpper(n.c[2].v)]
    IN [l |-> lhs, op |-> op,
        r |-> IF op \in UnaryOps THEN None ELSE LegScalar(n.c[3], OnlyStrings(lhs))]
LegCondFn(n) ==
    LET p == LegParts(n)
    IN IF p.op = "NOT" THEN Err("Exception")
       ELSE Mk(N("fn", "", <<Str(CondFn[p.op]),
                 IF IsErr(p.l) THEN p.l ELSE IF p.op \in UnaryOps THEN TupN(<<p.l>>) ELSE TupN(<<p.l, p.r>>), None>>))
LegAlias(n) == IF Len(n.c) > 2 /\ ~IsNone(n.c[3])
               THEN (IF n.c[3].k # "str" THEN Err("Exception")
                     ELSE IF n.c[3].v # "" /\ Ticked(n.c[3].v) THEN Str(Inside(n.c[3].v)) ELSE n.c[3])
               ELSE None
LegExp(n) ==
    CASE n.k = "str" -> IF n.v = "" THEN n
                        ELSE IF StartsWith(n.v, "'") /\ EndsWith(n.v, "'") THEN Str(Inside(n.v))
                        ELSE Mk(Col(n.v))
      [] n.k # "list" -> LegScalar(n, FALSE)
      [] IsCondition(n) -> LegCondFn(n)
      [] OTHER ->
           IF Len(n.c) < 2 THEN Err("Exception")
           ELSE IF n.c[1].k # "str" THEN Err("Exception")
           ELSE LET f == n.c[1].v
                    al == LegAlias(n)
                    arg == n.c[2]
                    fn(name, ps) == IF IsErr(al) THEN al ELSE Mk(N("fn", "", <<Str(name), ps, al>>))
                IN IF EndsWith(f, "()") /\ ~Truthy(arg) THEN fn(Strip(f, {"(", ")"}), ListN(<<>>))
                   ELSE IF ~EndsWith(f, ")") /\ ~Truthy(arg) THEN fn(f, ListN(<<>>))
                   ELSE IF arg.k = "list" THEN fn(f, MkList(MapSeq(arg.c, LegExp)))
                   ELSE IF Truthy(arg) THEN fn(f, MkList(<<LegExp(arg)>>))
                   ELSE fn(f, None)
LegCond(n) == IF ~(n.k \in SeqKinds /\ Len(n.c) >= 3 /\ n.c[2].k = "str") THEN Err("Exception")
              ELSE IF ToUpper(n.c[2].v) \notin DOMAIN OpByText THEN Err("Exception")
              ELSE LET p == LegParts(n) IN Mk(N("cond", "", <<p.l, OpN(p.op), p.r>>))
\* a condition, or a group of conditions meaning OR; yields a sequence
LegGroup(n) ==
    IF n.k \notin SeqKinds THEN <<Err("Exception")>>
    ELSE IF IsCondition(n) THEN <<LegCond(n)>>
    ELSE LET cs == MapSeq(n.c, LegCond)
         IN IF \E i \in 1..Len(cs) : IsErr(cs[i]) THEN cs
            ELSE IF Len(cs) > 1 THEN <<OrN(cs)>> ELSE cs
LegConds(n) == IF IsNone(n) THEN <<>> ELSE ConcatAll(MapSeq(n.c, LegGroup))

AsList(n) == IF n.k = "tuple" THEN ListN(n.c) ELSE n
LegExtension(col, x, alwaysIn) ==
    IF ~Truthy(x) THEN <<>>
    ELSE IF IsIntLike(x) THEN (IF alwaysIn THEN <<CondN(Col(col), "IN", TupN(<<x>>))>> ELSE <<CondN(Col(col), "EQ", x)>>)
    ELSE IF x.k \in SeqKinds THEN <<Mk(CondN(Col(col), "IN", TupN([i \in 1..Len(x.c) |-> LegScalar(x.c[i], FALSE)])))>>
    ELSE <<>>

TimeColumns == [discover |-> "timestamp", discover_events |-> "timestamp", discover_transactions |-> "finish_ts",
    errors |-> "timestamp", events |-> "timestamp", outcomes |-> "timestamp", outcomes_raw |-> "timestamp",
    replays |-> "timestamp", search_issues |-> "timestamp", sessions |-> "started", spans |-> "finish_ts",
    transactions |-> "finish_ts"]
LegTime(body, entity, key, op) ==
    LET x == Get(body, key)
    IN IF entity \notin DOMAIN TimeColumns \/ ~Truthy(x) THEN <<>>
       ELSE IF x.k # "str" THEN <<Err("Exception")>>
       ELSE IF ~IsDate(x.v) THEN <<Err("ValueError")>>
       ELSE <<CondN(Col(TimeColumns[entity]), op, DateNode(x.v))>>

LStripDash(s) == StripL(s, {"-"})
LegOrder(o) ==
    LET isList == o.k = "list" /\ Len(o.c) > 0
        first == IF isList THEN o.c[1] ELSE o
        desc == first.k = "str" /\ StartsWith(first.v, "-")
        o2 == IF ~desc THEN o ELSE IF isList THEN SetField(o, 1, Str(LStripDash(first.v))) ELSE Str(LStripDash(first.v))
    IN IF ~(isList \/ o.k = "str") THEN Err("Exception")
       ELSE Mk(N("orderby", "", <<LegExp(o2), DirN(IF desc THEN "DESC" ELSE "ASC")>>))

SampleNode(x) == IF IsNone(x) THEN None
                 ELSE IF x.k = "int" THEN Flt(x.v \o ".0")
                 ELSE IF x.k = "bool" THEN Flt(IF x.v = "True" THEN "1.0" ELSE "0.0")
                 ELSE IF x.k = "float" THEN x ELSE Err("Exception")
ListOrEmpty(n) == IF n.k \in SeqKinds THEN n.c ELSE <<>>
OneOrList(n) == IF ~Truthy(n) THEN <<>> ELSE IF n.k = "list" THEN n.c ELSE <<n>>

LegacyQuery(body, entity) ==
    LET ent == Mk(EntityN(entity, None, SampleNode(Get(body, "sample")), None))
        aggs == [i \in 1..Len(ListOrEmpty(Get(body, "aggregations"))) |-> LegExp(AsList(ListOrEmpty(Get(body, "aggregations"))[i]))]
        sels == [i \in 1..Len(ListOrEmpty(Get(body, "selected_columns"))) |-> LegExp(AsList(ListOrEmpty(Get(body, "selected_columns"))[i]))]
        select == aggs \o sels
        aj == Get(body, "arrayjoin")
        gb == OneOrList(Get(body, "groupby"))
        groups == [i \in 1..Len(gb) |-> LegExp(AsList(gb[i]))]
        where == LegExtension("org_id", Get(body, "organization"), FALSE)
                 \o LegTime(body, entity, "from_date", "GTE") \o LegTime(body, entity, "to_date", "LT")
                 \o LegExtension("project_id", Get(body, "project"), TRUE)
                 \o LegConds(Get(body, "conditions"))
        having == LegConds(Get(body, "having"))
        ob == Get(body, "orderby")
        orders == [i \in 1..Len(OneOrList(ob)) |-> LegOrder(OneOrList(ob)[i])]
        lb == Get(body, "limitby")
        limitby == IF ~Truthy(lb) THEN None
                   ELSE Mk(N("limitby", "", <<IF lb.c[2].k = "str" THEN MkList(<<Mk(Col(lb.c[2].v))>>) ELSE Err("InvalidColumnError"),
                                              IF lb.c[1].k \in {"int", "str"} THEN IntS(lb.c[1].v) ELSE lb.c[1]>>))
        typed(seq, ks) == IF \E i \in 1..Len(seq) : IsErr(seq[i]) THEN seq[CHOOSE i \in 1..Len(seq) : IsErr(seq[i])]
                          ELSE IF \E i \in 1..Len(seq) : seq[i].k \notin ks THEN Err("InvalidQueryError") ELSE ListN(seq)
        one(key, k) == IF IsNone(Get(body, key)) THEN None ELSE Mk(N(k, "", <<Get(body, key)>>))
        fields == << ent,
                     IF select = <<>> THEN Err("InvalidQueryError") ELSE typed(select, SelectKinds),
                     typed(groups, SelectKinds),
                     IF Truthy(aj) THEN (IF aj.k = "str" THEN MkList(<<Mk(Col(aj.v))>>) ELSE Err("InvalidColumnError")) ELSE None,
                     MkList(where), MkList(having),
                     IF Truthy(ob) THEN MkList(orders) ELSE None,
                     limitby, one("limit", "limit"), one("offset", "offset"), one("granularity", "gran"),
                     one("totals", "totals") >>
    IN N("query", "", fields)

LegFlag(body, key) == LET x == Get(body, key) IN IF Truthy(x) THEN x ELSE None
LegacyRequest(body, entity) ==
    LET ds == Get(body, "dataset")  ap == Get(body, "app_id")  ti == Get(body, "tenant_ids")
    IN N("request", "", <<IF Truthy(ds) THEN ds ELSE Str(entity), IF Truthy(ap) THEN ap ELSE Str("legacy"),
                          LegacyQuery(body, entity),
                          N("flags", "", <<None, LegFlag(body, "consistent"), LegFlag(body, "turbo"), LegFlag(body, "debug"),
                                           LegFlag(body, "dry_run"), True>>),
                          Str("<unknown>"),
                          IF Truthy(ti) THEN ti ELSE DictN(<<Kv("legacy", Str("legacy"))>>)>>)
LegacyErrs(body, entity) ==
    LET q == LegacyQuery(body, entity)
    IN If(\E i \in 1..Len(q.c) : IsErr(q.c[i]), "Exception")
==============================================================================
