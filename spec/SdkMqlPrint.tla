---------------------------- MODULE SdkMqlPrint ----------------------------
(***************************************************************************)
(* The MQL text of a Timeseries or Formula.                                *)
(***************************************************************************)
EXTENDS SdkOpt

MqlOps == {"EQ", "NEQ", "IN", "NOT_IN", "LIKE", "NOT_LIKE"}
NegOps == {"NEQ", "NOT_IN", "NOT_LIKE"}

\* Conditions MQL has no way to write
RECURSIVE CondMqlErrs(_)
CondMqlErrs(c) ==
    IF c.k = "cond" THEN If(c.c[2].v \notin MqlOps, "InvalidExpressionError")
                         \cup If(c.c[3].k \in FnKinds, "InvalidExpressionError")
    ELSE UnionAll(BoolConds(c), CondMqlErrs)
RECURSIVE CondMql(_)
CondMql(c) ==
    IF c.k = "cond"
    THEN (IF c.c[2].v \in NegOps THEN "!" ELSE "") \o Vis(c.c[1], Mql) \o ":" \o Vis(c.c[3], Mql)
    ELSE "(" \o JoinStr(MapSeq(BoolConds(c), CondMql), " " \o BoolOp(c) \o " ") \o ")"
FiltersMql(f) == IF IsNone(f) THEN "" ELSE "{" \o JoinStr(MapSeq(f.c, CondMql), " AND ") \o "}"
FiltersErrs(f) == IF IsNone(f) THEN {} ELSE UnionAll(f.c, CondMqlErrs)
GroupbyMql(g) == IF Truthy(g) THEN " by (" \o JoinStr(VisAll(g.c, Mql), ", ") \o ")" ELSE ""
ParamsMql(p) == IF Truthy(p) THEN "(" \o JoinStr(VisAll(p.c, Mql), ", ") \o ")" ELSE ""

MriBreak == {"(", ")", "{", "}", "[", "]", "\"", ","}
MetricMql(m) ==
    IF ~IsNone(m.c[2])
    THEN IF AnyIn(m.c[2].v, MriBreak) \/ (m.c[2].v # "" /\ Ch(m.c[2].v, 1) \in Space)
         THEN "`" \o m.c[2].v \o "`" ELSE m.c[2].v
    ELSE m.c[1].v

TsMql(t) ==
    LET agg == t.c[2].v \o ParamsMql(t.c[3])
        m == MetricMql(t.c[1])
    IN (IF agg = "" THEN m ELSE agg \o "(" \o m \o ")") \o FiltersMql(t.c[4]) \o GroupbyMql(t.c[5])

Infix == [plus |-> " + ", minus |-> " - ", multiply |-> " * ", divide |-> " / "]
RECURSIVE FormulaMql(_)
OperandMql(p) ==
    CASE p.k = "ts" -> TsMql(p)
      [] p.k = "formula" -> FormulaMql(p)
      [] p.k = "float" -> Positional(p.v)
      [] OTHER -> p.v                          \* int, bool, str: str(p)
FormulaMql(f) ==
    LET ps == MapSeq(f.c[2].c, OperandMql)
        name == f.c[1].v
        body == IF name \in DOMAIN Infix THEN "(" \o JoinStr(ps, Infix[name]) \o ")"
                ELSE (IF name = "negate" THEN "-" ELSE name) \o ParamsMql(f.c[3])
                     \o "(" \o JoinStr(ps, ", ") \o ")"
        suffix == FiltersMql(f.c[4]) \o GroupbyMql(f.c[5])
        \* filters and group bys bind tighter than the prefix operator
    IN (IF name = "negate" /\ suffix # "" THEN "(" \o body \o ")" ELSE body) \o suffix

ExprMql(x) == IF x.k = "ts" THEN TsMql(x) ELSE FormulaMql(x)

RECURSIVE ExprMqlErrs(_)
ExprMqlErrs(x) ==
    CASE x.k = "ts" -> FiltersErrs(x.c[4]) \cup If(~Renders(x), "Exception")
      [] x.k = "formula" ->
            FiltersErrs(x.c[4])
            \cup (IF IsNone(x.c[2]) THEN {"Exception"} ELSE UnionAll(x.c[2].c, ExprMqlErrs))
            \cup If(~Renders(x), "Exception")
      [] OTHER -> {}

\* The permitted MQL texts: the OR rewriting applies to the top-level filters of the expression
FilterIdx(x) == 4
MqlTexts(x) ==
    LET f == x.c[4]
    IN IF f.k \notin SeqKinds THEN {ExprMql(x)}
       ELSE LET full == ExprMql(SetField(x, 4, [f EXCEPT !.c = FullyRewritten(f.c)]))
            IN IF EligibleIdx(f.c) = {} THEN {full}
               ELSE IF Cardinality(EligibleIdx(f.c)) > 3 THEN {full, ExprMql(x)}
               ELSE {ExprMql(SetField(x, 4, [f EXCEPT !.c = cs])) : cs \in Choices(f.c)}
==============================================================================
