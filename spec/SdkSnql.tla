------------------------------ MODULE SdkSnql ------------------------------
(***************************************************************************)
(* The text of expressions and queries.  cx is the rendering context:      *)
(* [qual |-> whether names are qualified with entity aliases,              *)
(*  mql |-> whether literals are written for MQL instead of SnQL].         *)
(***************************************************************************)
EXTENDS SdkMatch

Snql(qual) == [qual |-> qual, mql |-> FALSE]
Mql == [qual |-> FALSE, mql |-> TRUE]

------------------------------------------------------------------------------
(* Datetimes *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28)
                  ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
PrevDay(d) == IF d[3] > 1 THEN <<d[1], d[2], d[3] - 1>>
              ELSE IF d[2] > 1 THEN <<d[1], d[2] - 1, MonthLen(d[1], d[2] - 1)>>
              ELSE <<d[1] - 1, 12, 31>>
NextDay(d) == IF d[3] < MonthLen(d[1], d[2]) THEN <<d[1], d[2], d[3] + 1>>
              ELSE IF d[2] < 12 THEN <<d[1], d[2] + 1, 1>>
              ELSE <<d[1] + 1, 1, 1>>
I(n) == Int10(n.v)
DateOf(n) == <<I(n.c[1]), I(n.c[2]), I(n.c[3])>>
\* seconds of the day, and the offset in seconds
ToUtc(n) ==
    LET off == IF IsNone(n.c[8]) THEN 0 ELSE I(n.c[8])
        s == 3600 * I(n.c[4]) + 60 * I(n.c[5]) + I(n.c[6]) - off
    IN IF s < 0 THEN [d |-> PrevDay(DateOf(n)), s |-> s + 86400]
       ELSE IF s >= 86400 THEN [d |-> NextDay(DateOf(n)), s |-> s - 86400]
       ELSE [d |-> DateOf(n), s |-> s]
DateText(d) == Pad(d[1], 4) \o "-" \o Pad(d[2], 2) \o "-" \o Pad(d[3], 2)
TimeText(s) == Pad(s \div 3600, 2) \o ":" \o Pad((s \div 60) % 60, 2) \o ":" \o Pad(s % 60, 2)
MicroText(us) == IF us = 0 THEN "" ELSE "." \o Pad(us, 6)
\* isoformat() after conversion to naive UTC
UtcIso(n) == LET u == ToUtc(n) IN DateText(u.d) \o "T" \o TimeText(u.s) \o MicroText(I(n.c[7]))
\* isoformat() as is
Abs(x) == IF x < 0 THEN 0 - x ELSE x
OffText(n) ==
    IF IsNone(n) THEN ""
    ELSE LET o == I(n)  a == Abs(o)
         IN (IF o < 0 THEN "-" ELSE "+") \o Pad(a \div 3600, 2) \o ":" \o Pad((a \div 60) % 60, 2)
            \o (IF a % 60 = 0 THEN "" ELSE ":" \o Pad(a % 60, 2))
Iso(n) == DateText(DateOf(n)) \o "T" \o TimeText(3600 * I(n.c[4]) + 60 * I(n.c[5]) + I(n.c[6]))
          \o MicroText(I(n.c[7])) \o OffText(n.c[8])

------------------------------------------------------------------------------
EscSnql == ("\\" :> "\\\\") @@ ("'" :> "\\'") @@ ("\n" :> "\\n")
EscMql == ("\\" :> "\\\\") @@ ("\"" :> "\\\"") @@ ("\n" :> "\\n")
Quote(s, cx) == IF cx.mql THEN "\"" \o MapChars(s, EscMql) \o "\"" ELSE "'" \o MapChars(s, EscSnql) \o "'"

\* .1f for whole numbers, else six decimals, else as many as it takes
SampleText(r) ==
    LET p == Positional(r)  f == FracPart(p)
    IN IF AllIn(f, {"0"}) THEN (IF f = "" THEN p \o ".0" ELSE p)
       ELSE IF Len(f) <= 6 THEN p \o Zeros(6 - Len(f))
       ELSE p

RECURSIVE Vis(_, _)
Lit(n, cx) ==
    CASE n.k = "none" -> "NULL"
      [] n.k = "bool" -> IF n.v = "True" THEN "TRUE" ELSE "FALSE"
      [] n.k \in {"str", "bytes"} -> Quote(n.v, cx)
      [] n.k = "int" -> n.v
      [] n.k = "float" -> IF cx.mql THEN Positional(n.v) ELSE n.v
      [] n.k = "dt" -> "toDateTime('" \o UtcIso(n) \o "')"
      [] n.k = "date" -> "toDateTime('" \o DateText(DateOf(n)) \o "')"
VisAll(s, cx) == [i \in 1..Len(s) |-> Vis(s[i], cx)]
Vis(n, cx) ==
    CASE IsLiteral(n) -> Lit(n, cx)
      [] n.k = "list" -> (IF cx.mql THEN "[" ELSE "array(") \o JoinStr(VisAll(n.c, cx), ", ")
                         \o (IF cx.mql THEN "]" ELSE ")")
      [] n.k = "tuple" -> (IF cx.mql THEN "[" ELSE "tuple(") \o JoinStr(VisAll(n.c, cx), ", ")
                          \o (IF cx.mql THEN "]" ELSE ")")
      [] n.k = "col" -> (IF ~IsNone(n.c[2]) /\ cx.qual THEN n.c[2].c[2].v \o "." ELSE "") \o n.c[1].v
      [] n.k = "aliased" -> Vis(n.c[1], cx) \o (IF IsNone(n.c[2]) THEN "" ELSE " AS `" \o n.c[2].v \o "`")
      [] n.k \in FnKinds ->
            FName(n).v
            \o (IF IsNone(FInit(n)) THEN "" ELSE "(" \o JoinStr(VisAll(Elems(FInit(n)), cx), ", ") \o ")")
            \o (IF IsNone(FParams(n)) THEN "" ELSE "(" \o JoinStr(VisAll(Elems(FParams(n)), cx), ", ") \o ")")
            \o (IF IsNone(FAlias(n)) THEN "" ELSE " AS `" \o FAlias(n).v \o "`")
      [] n.k = "ident" -> "`" \o n.c[1].v \o "`"
      [] n.k = "lambda" -> "(" \o JoinStr([i \in 1..Len(n.c[1].c) |-> "`" \o n.c[1].c[i].v \o "`"], ", ")
                           \o ") -> " \o Vis(n.c[2], cx)
      [] n.k = "entity" -> "(" \o (IF ~IsNone(n.c[2]) /\ cx.qual THEN n.c[2].v \o ": " ELSE "") \o n.c[1].v
                           \o (IF IsNone(n.c[3]) THEN "" ELSE " SAMPLE " \o SampleText(n.c[3].v)) \o ")"
      [] n.k = "storage" -> "STORAGE(" \o n.c[1].v
                            \o (IF IsNone(n.c[2]) THEN "" ELSE " SAMPLE " \o SampleText(n.c[2].v)) \o ")"
      [] n.k = "rel" -> Vis(n.c[1], cx) \o " -[" \o n.c[2].v \o "]-> " \o Vis(n.c[3], cx)
      [] n.k = "join" -> JoinStr(VisAll(n.c[1].c, cx), ", ")
      [] n.k = "cond" -> Vis(n.c[1], cx) \o " " \o OpText[n.c[2].v]
                         \o (IF n.c[2].v \in UnaryOps THEN "" ELSE " " \o Vis(n.c[3], cx))
      [] n.k \in BoolKinds -> "(" \o JoinStr(VisAll(BoolConds(n), cx), " " \o BoolOp(n) \o " ") \o ")"
      [] n.k = "orderby" -> Vis(n.c[1], cx) \o " " \o n.c[2].v
      [] n.k \in {"limit", "offset", "gran"} -> IntText(n.c[1])
      [] n.k = "limitby" -> IntText(n.c[2]) \o " BY " \o JoinStr(VisAll(Elems(n.c[1]), cx), ",")
      [] n.k = "totals" -> n.c[1].v

\* Nothing in n that cannot be rendered (bytes that are not UTF-8, Extrapolate)
RECURSIVE Renders(_)
Renders(n) == /\ n.k \notin {"badbytes", "extrap", "obj"}
              /\ \A i \in 1..Len(n.c) : Renders(n.c[i])

------------------------------------------------------------------------------
(* Queries *)
ListClause(word, n, sep, cx) == IF Truthy(n) THEN word \o JoinStr(VisAll(n.c, cx), sep) ELSE ""
OneClause(word, n, cx) == IF IsNone(n) THEN "" ELSE word \o Vis(n, cx)

RECURSIVE QueryText(_, _)
\* outerSep: the separator of the clauses of this query; inner queries always use a blank
Clauses(q) ==
    LET cx == Snql(QMatch(q).k = "join")
        m == QMatch(q)
    IN << IF m.k = "query" THEN "MATCH { " \o QueryText(m, " ") \o " }" ELSE "MATCH " \o Vis(m, cx),
          ListClause("SELECT ", q.c[2], ", ", cx),
          ListClause("BY ", q.c[3], ", ", cx),
          ListClause("ARRAY JOIN ", q.c[4], ", ", cx),
          ListClause("WHERE ", q.c[5], " AND ", cx),
          ListClause("HAVING ", q.c[6], " AND ", cx),
          ListClause("ORDER BY ", q.c[7], ", ", cx),
          OneClause("LIMIT ", q.c[8], cx),
          OneClause("LIMIT ", q.c[9], cx),
          OneClause("OFFSET ", q.c[10], cx),
          OneClause("GRANULARITY ", q.c[11], cx),
          OneClause("TOTALS ", q.c[12], cx) >>
NonEmpty(s) == s # ""
QueryText(q, sep) == JoinStr(SelectSeq(Clauses(q), NonEmpty), sep)
==============================================================================
