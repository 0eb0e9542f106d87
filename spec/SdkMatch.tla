------------------------------ MODULE SdkMatch ------------------------------
(***************************************************************************)
(* When a query is well-formed: its parts, the resolution of its columns   *)
(* against the match clause, and the required-column check.                *)
(***************************************************************************)
EXTENDS SdkValid

\* Every column mentioned in n, at any depth
RECURSIVE Cols(_)
Cols(n) == IF n.k = "col" THEN {n} ELSE UNION {Cols(n.c[i]) : i \in 1..Len(n.c)}
ClauseCols(q) == UNION {Cols(q.c[i]) : i \in 2..Len(q.c)}

\* The names an inner query offers
Exposed(q) ==
    LET sel == QSelect(q).c
    IN {FAlias(sel[i]).v : i \in {j \in 1..Len(sel) : sel[j].k \in FnKinds /\ ~IsNone(FAlias(sel[j]))}}
       \cup {sel[i].c[1].v : i \in {j \in 1..Len(sel) : sel[j].k = "col"}}

Resolves(col, m) ==
    CASE m.k = "query" -> col.c[1].v \in Exposed(m)
      [] m.k = "join" -> /\ ~IsNone(col.c[2])
                         /\ \E e \in JoinEntities(m) : AliasOf(e) = AliasOf(col.c[2]) /\ NameOf(e) = NameOf(col.c[2])
      [] m.k \in {"entity", "storage"} -> InModel(col.c[1].v, m)
ResolveClass(m) == IF m.k \in {"query", "join"} THEN "InvalidMatchError" ELSE "InvalidColumnError"

\* A part that was valid when it was made may have been changed by its owner since
PartErrs(n) == IF IsExpr(n) THEN ExprErrs(n) ELSE {"Exception"}
ListFieldErrs(n) ==
    IF IsNone(n) THEN {}
    ELSE IF n.k \notin SeqKinds THEN {"Exception"}
    ELSE UnionAll(n.c, PartErrs)
OneFieldErrs(n) == IF IsNone(n) THEN {} ELSE PartErrs(n)

MatchKinds == {"query", "join", "entity", "storage"}

\* What validating q raises
RECURSIVE QueryErrs(_)
QueryErrs(q) ==
    LET m == QMatch(q)
        inner == IF m.k = "query" THEN QueryErrs(m) ELSE ExprErrs(m)
        typed == UNION {ListFieldErrs(q.c[i]) : i \in 2..7} \cup UNION {OneFieldErrs(q.c[i]) : i \in 8..12}
        sel == QSelect(q)
    IN inner \cup typed
       \cup If(IsNone(sel) \/ (sel.k \in SeqKinds /\ Len(sel.c) = 0), "InvalidQueryError")
       \cup If(typed = {} /\ QTotals(q).k = "totals" /\ QTotals(q).c[1].v = "True" /\ ~Truthy(QGroupby(q)),
               "InvalidQueryError")
       \cup (IF typed = {} /\ inner = {}
             THEN If(\E col \in ClauseCols(q) : ~Resolves(col, m), ResolveClass(m))
             ELSE {})

\* What constructing (or re-targeting) a query on match m raises
MatchErrs(m) ==
    IF m.k \notin MatchKinds THEN {"InvalidQueryError"}
    ELSE If(m.k = "query" /\ QueryErrs(m) # {}, "InvalidQueryError")

------------------------------------------------------------------------------
(* The setters of Query *)
IsListOf(n, ks) == n.k = "list" /\ \A i \in 1..Len(n.c) : n.c[i].k \in ks
Wrapped == [limit |-> "limit", offset |-> "offset", granularity |-> "gran", totals |-> "totals"]
\* The value a setter stores, and what it raises
SetterValue(f, x) == IF f \in DOMAIN Wrapped THEN N(Wrapped[f], "", <<x>>) ELSE x
RECURSIVE HasQuery(_)
HasQuery(n) == n.k = "query" \/ \E i \in 1..Len(n.c) : HasQuery(n.c[i])
SetterErrs(f, x) ==
    CASE f = "match" -> MatchErrs(x)
      [] f = "select" -> If(~IsListOf(x, SelectKinds) \/ Len(x.c) = 0, "InvalidQueryError")
      [] f = "groupby" -> If(~IsListOf(x, SelectKinds), "InvalidQueryError")
      [] f = "array_join" -> If(~IsListOf(x, {"col"}) \/ Len(x.c) = 0, "InvalidQueryError")
      [] f \in {"where", "having"} -> If(~IsListOf(x, CondKinds), "InvalidQueryError")
      [] f = "orderby" -> If(~IsListOf(x, {"orderby"}), "InvalidQueryError")
      [] f = "limitby" -> If(x.k # "limitby", "InvalidQueryError")
      [] OTHER -> LET es == ExprErrs(SetterValue(f, x))       \* (the message shows the value, and an invalid query cannot be shown)
                  IN es \cup If(es # {} /\ HasQuery(x), "Exception")

------------------------------------------------------------------------------
(* Required columns *)
RECURSIVE Conjuncts(_)        \* flattening AND, in order
Conjuncts(cs) ==
    ConcatAll([i \in 1..Len(cs) |->
        IF cs[i].k \in BoolKinds /\ BoolOp(cs[i]) = "AND" THEN Conjuncts(BoolConds(cs[i])) ELSE <<cs[i]>>])
Constrains(c, ops, name, e) ==
    /\ c.k = "cond"
    /\ c.c[1].k = "col"
    /\ c.c[1].c[1].v = name
    /\ c.c[2].v \in ops
    /\ (IsNone(c.c[1].c[2]) \/ c.c[1].c[2].c[2] = e.c[2])
EntityConstrained(e, w) ==
    LET dm == e.c[4]
        cs == IF IsNone(w) THEN <<>> ELSE Conjuncts(w.c)
        Has(ops, name) == \E i \in 1..Len(cs) : Constrains(cs[i], ops, name, e)
    IN \/ IsNone(dm)
       \/ /\ cs # <<>>
          /\ \A name \in DmRequired(dm) : Has({"EQ", "IN"}, name)
          /\ Has({"GTE"}, DmTime(dm))
          /\ Has({"LT"}, DmTime(dm))
RECURSIVE RequiredOk(_)
RequiredOk(q) ==
    LET m == QMatch(q)
    IN CASE m.k = "query" -> RequiredOk(m)
         [] m.k = "entity" -> EntityConstrained(m, QWhere(q))
         [] m.k = "join" -> \A e \in JoinEntities(m) : EntityConstrained(e, QWhere(q))
         [] OTHER -> TRUE
RequiredErrs(q) == If(~RequiredOk(q), "RequiredColumnError")
==============================================================================
