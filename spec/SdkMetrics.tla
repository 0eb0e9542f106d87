----------------------------- MODULE SdkMetrics -----------------------------
(***************************************************************************)
(* Metrics queries: which parts are accepted, and what is serialized.      *)
(***************************************************************************)
EXTENDS SdkMqlParse

StrOrNone(n) == n.k \in {"str", "none"}
ITE == "InvalidTimeseriesError"
IEE == "InvalidExpressionError"
IMQ == "InvalidMetricsQueryError"
IFE == "InvalidFormulaError"

MetricErrs(m) ==
    If(~StrOrNone(m.c[1]), ITE) \cup If(~StrOrNone(m.c[2]), ITE)
    \cup If(~(IsNone(m.c[3]) \/ IsIntLike(m.c[3])), ITE)
    \cup If(IsNone(m.c[1]) /\ IsNone(m.c[2]), ITE)

TsErrs(t) ==
    If(t.c[1].k # "metric", ITE)
    \cup If(t.c[2].k # "str", ITE)
    \cup If(~IsNone(t.c[3]) /\ ~(t.c[3].k = "list" /\ \A i \in 1..Len(t.c[3].c) : IsLiteral(t.c[3].c[i])), ITE)
    \cup If(~IsNone(t.c[4]) /\ ~IsListOf(t.c[4], CondKinds), ITE)
    \cup If(~IsNone(t.c[5]) /\ ~IsListOf(t.c[5], {"col", "aliased"}), ITE)

\* Everything below a formula, at any depth
RECURSIVE Operands(_)
Operands(f) == IF f.k # "formula" THEN {f}
               ELSE {f} \cup (IF f.c[2].k \in SeqKinds THEN UNION {Operands(f.c[2].c[i]) : i \in 1..Len(f.c[2].c)} ELSE {})
Groupbys(f) == {x.c[5].c : x \in {y \in Operands(f) : y.k \in {"ts", "formula"} /\ ~IsNone(y.c[5])}}
HasTs(f) == \E x \in Operands(f) : x.k = "ts"
\* A formula and all formulas in it: name and parameter types
RECURSIVE FormulaTypeErrs(_)
FormulaTypeErrs(f) ==
    If(f.c[1].k # "str", IFE)
    \cup (IF f.c[2].k \notin SeqKinds THEN {IFE}
          ELSE If(\E i \in 1..Len(f.c[2].c) : f.c[2].c[i].k \notin {"formula", "ts", "float", "int", "bool"}, IFE)
               \cup UNION {IF f.c[2].c[i].k = "formula" THEN FormulaTypeErrs(f.c[2].c[i]) ELSE {} : i \in 1..Len(f.c[2].c)})
FormulaErrs(f) ==
    FormulaTypeErrs(f)
    \cup (IF FormulaTypeErrs(f) # {} THEN {}
          ELSE If(~HasTs(f), IFE) \cup If(Cardinality(Groupbys(f)) > 1, IFE))

RollupErrs(r) ==
    LET int == r.c[1]  tot == r.c[2]  ob == r.c[3]  gr == r.c[4]
        grOk == gr.k = "int" /\ gr.v \in {"10", "60", "3600", "86400"}
    IN If(~IsNone(gr) /\ ~grOk, IEE)
       \cup (IF IsNone(int) THEN {} ELSE IntErrs(int, "10", ""))
       \cup If(int.k = "int" /\ grOk /\ Less10(int.v, gr.v), IEE)
       \cup If(~IsNone(tot) /\ tot.k # "bool", IEE)
       \cup If(IsNone(int) /\ IsNone(tot), IEE)
       \cup If(~IsNone(ob) /\ ob.k # "dir", IEE)
       \cup If(~IsNone(int) /\ ~IsNone(ob), IEE)

ScopeErrs(s) ==
    If(~IsListOf(s.c[1], {"int", "bool"}), IEE) \cup If(~IsListOf(s.c[2], {"int", "bool"}), IEE)
    \cup If(~StrOrNone(s.c[3]), IEE)

------------------------------------------------------------------------------
MqFields == <<"query", "start", "end", "rollup", "scope", "limit", "offset", "extrapolate", "indexer_mappings">>
MqQueryErrs(x) ==
    CASE x.k = "ts" -> TsErrs(x)
      [] x.k = "formula" -> FormulaErrs(x)
      [] x.k = "str" -> LET p == ParseMql(x.v) IN IF IsBad(p) THEN {IMQ} ELSE IF p.k = "formula" THEN FormulaErrs(p) ELSE {}
      [] OTHER -> {IMQ}
MqErrs(q) ==
    MqQueryErrs(q.c[1])
    \cup If(q.c[2].k # "dt", IMQ) \cup If(q.c[3].k # "dt", IMQ)
    \cup If(q.c[4].k # "rollup", IMQ) \cup If(q.c[4].k = "rollup" /\ IsNone(q.c[4].c[4]), IMQ)
    \cup (IF q.c[4].k = "rollup" THEN RollupErrs(q.c[4]) ELSE {})
    \cup If(q.c[5].k # "scope", IMQ) \cup (IF q.c[5].k = "scope" THEN ScopeErrs(q.c[5]) ELSE {})
    \cup If(q.c[6].k \notin {"none", "limit"}, IMQ)
    \cup If(q.c[7].k \notin {"none", "offset"}, IMQ)
    \cup If(q.c[8].k \notin {"none", "extrap"}, IMQ)
    \cup If(q.c[9].k \notin {"none", "dict"}, IMQ)

\* The Timeseries or Formula a metrics query stands for
MqExpr(q) == IF q.c[1].k = "str" THEN ParseMql(q.c[1].v) ELSE q.c[1]

\* Serializing also needs the mappings, and filters that MQL can express
MqSerErrs(q) ==
    MqErrs(q) \cup If(IsNone(q.c[9]), IMQ)
    \cup (IF MqErrs(q) = {} THEN ExprMqlErrs(MqExpr(q)) ELSE {})

Unwrap(n) == IF IsNone(n) THEN None ELSE n.c[1]
RollupDict(r) == DictN(<<Kv("granularity", r.c[4]), Kv("interval", r.c[1]),
                         Kv("orderby", IF IsNone(r.c[3]) THEN None ELSE Str(r.c[3].v)),
                         Kv("with_totals", IF IsNone(r.c[2]) THEN None ELSE Str(r.c[2].v))>>)
ScopeDict(s) == DictN(<<Kv("org_ids", s.c[1]), Kv("project_ids", s.c[2]), Kv("use_case_id", s.c[3])>>)
MqContext(q) ==
    DictN(<<Kv("end", Str(Iso(q.c[3]))), Kv("extrapolate", Unwrap(q.c[8])),
            Kv("indexer_mappings", q.c[9]), Kv("limit", Unwrap(q.c[6])), Kv("offset", Unwrap(q.c[7])),
            Kv("rollup", RollupDict(q.c[4])), Kv("scope", ScopeDict(q.c[5])), Kv("start", Str(Iso(q.c[2])))>>)
MqDict(q, text) == DictN(<<Kv("mql", Str(text)), Kv("mql_context", MqContext(q))>>)
\* The OR rewriting applies to objects, not to MQL strings
MqTexts(q) == IF q.c[1].k = "str" THEN {ExprMql(MqExpr(q))} ELSE MqlTexts(q.c[1])
MqSerialized(q) == {MqDict(q, t) : t \in MqTexts(q)}
MqPrinted(q) == MqDict(q, ExprMql(MqExpr(q)))

------------------------------------------------------------------------------
(* Setters *)
MqSetterValue(f, x) ==
    CASE f = "limit" -> N("limit", "", <<x>>)
      [] f = "offset" -> N("offset", "", <<x>>)
      [] f = "extrapolate" -> N("extrap", "", <<x>>)
      [] OTHER -> x
MqSetterErrs(f, x) ==
    CASE f = "query" -> If(x.k \notin {"formula", "ts", "str"}, "InvalidQueryError")
      [] f \in {"start", "end"} -> If(x.k # "dt", "InvalidQueryError")
      [] f = "rollup" -> If(x.k # "rollup", "InvalidQueryError")
      [] f = "scope" -> If(x.k # "scope", "InvalidQueryError")
      [] f \in {"limit", "offset", "extrapolate"} -> ExprErrs(MqSetterValue(f, x))
      [] OTHER -> {}
TsFields == <<"metric", "aggregate", "aggregate_params", "filters", "groupby">>
TsSetterErrs(f, x) ==
    CASE f = "metric" -> If(x.k # "metric", ITE)
      [] f = "filters" -> If(~IsNone(x) /\ ~IsListOf(x, CondKinds), ITE)
      [] f = "groupby" -> If(~IsNone(x) /\ ~IsListOf(x, {"col", "aliased"}), ITE)
TsSetAggErrs(a, ps) ==
    If(a.k # "str", ITE)
    \cup If(~IsNone(ps) /\ ~(ps.k = "list" /\ \A i \in 1..Len(ps.c) : IsLiteral(ps.c[i])), ITE)
FormulaFields == <<"function_name", "parameters", "aggregate_params", "filters", "groupby">>
FormulaSetterErrs(f, x) ==
    CASE f = "parameters" -> If(~IsNone(x) /\ ~IsListOf(x, {"formula", "ts", "float", "int", "bool"}), IFE)
      [] f = "filters" -> If(~IsNone(x) /\ ~IsListOf(x, CondKinds), IFE)
      [] f = "groupby" -> If(~IsNone(x) /\ ~IsListOf(x, {"col", "aliased"}), IFE)
MetricFields == <<"public_name", "mri", "id">>
MetricSetterErrs(f, x) == IF f = "id" THEN If(~IsIntLike(x), IEE) ELSE If(x.k # "str", IEE)
ScopeFields == <<"org_ids", "project_ids", "use_case_id">>

------------------------------------------------------------------------------
(* Equivalence of metrics expressions: what a reader of the query cannot    *)
(* tell apart.  Filters form one conjunction; nested ANDs and ORs are       *)
(* flattened; numbers are compared as numbers; a missing list is empty.     *)
NumText(n) == CASE n.k = "int" -> n.v \o ".0"
                [] n.k = "bool" -> n.v
                [] OTHER -> n.v
RECURSIVE FlatConds(_, _)
RECURSIVE NormCond(_)
FlatConds(cs, op) ==
    ConcatAll([i \in 1..Len(cs) |->
        IF cs[i].k \in BoolKinds /\ BoolOp(cs[i]) = op THEN FlatConds(BoolConds(cs[i]), op) ELSE <<NormCond(cs[i])>>])
NormSeq(n) == IF n.k = "tuple" THEN ListN(n.c) ELSE n
\* x = a OR x = b is x IN [a, b]
NormOr(cs) == IF Len(cs) > 1 /\ \A i \in 1..Len(cs) : cs[i].k = "cond" /\ cs[i].c[2].v = "EQ" /\ cs[i].c[1] = cs[1].c[1]
              THEN CondN(cs[1].c[1], "IN", ListN([i \in 1..Len(cs) |-> cs[i].c[3]]))
              ELSE N("flat", "OR", cs)
NormCond(c) == IF c.k = "cond" THEN N("cond", "", <<c.c[1], c.c[2], NormSeq(c.c[3])>>)
               ELSE LET cs == FlatConds(BoolConds(c), BoolOp(c))
                    IN IF BoolOp(c) = "OR" THEN NormOr(cs) ELSE N("flat", "AND", cs)
NormFilters(f) == ListN(FlatConds(ListItems(f), "AND"))
NormNum(p) == IF p.k \in {"int", "float"} THEN Flt(NumText(p)) ELSE p
NormParams(p) == ListN(MapSeq(ListItems(p), NormNum))
RECURSIVE NormExpr(_)
NormExpr(x) ==
    CASE x.k = "ts" -> N("ts", "", <<x.c[1], x.c[2], NormParams(x.c[3]), NormFilters(x.c[4]), ListN(ListItems(x.c[5]))>>)
      [] x.k = "formula" -> N("formula", "", <<x.c[1], ListN(MapSeq(x.c[2].c, NormExpr)), NormParams(x.c[3]),
                                                NormFilters(x.c[4]), ListN(ListItems(x.c[5]))>>)
      [] OTHER -> NormNum(x)
Equivalent(a, b) == NormExpr(a) = NormExpr(b)

------------------------------------------------------------------------------
(* The expressions that MQL can write down                                  *)
PlainText(s) == ~AnyIn(s, {"\\", "\n"})        \* known finding: backslashes and newlines are not unescaped
GoodTag(n) == n.k = "col" /\ IsNone(n.c[2]) /\ n.c[1].v # "" /\ AllIn(n.c[1].v, TagChars)
WildText(s) == Len(s) >= 2 /\ EndsWith(s, "*") /\ ~AnyIn(SubSeq(s, 1, Len(s) - 1), UnqStop)
GoodStr(n) == n.k = "str" /\ PlainText(n.v)
\* a single quoted value ending in * reads back as a LIKE
RECURSIVE GoodCond(_)
GoodCond(c) ==
    IF c.k = "cond"
    THEN /\ GoodTag(c.c[1])
         /\ CASE c.c[2].v \in {"EQ", "NEQ"} -> GoodStr(c.c[3]) /\ ~WildText(c.c[3].v)
              [] c.c[2].v \in {"LIKE", "NOT_LIKE"} -> GoodStr(c.c[3]) /\ WildText(c.c[3].v)
              [] c.c[2].v \in {"IN", "NOT_IN"} -> c.c[3].k \in SeqKinds /\ Len(c.c[3].c) > 0
                                                  /\ \A i \in 1..Len(c.c[3].c) : GoodStr(c.c[3].c[i])
              [] OTHER -> FALSE
    ELSE \A i \in 1..Len(BoolConds(c)) : GoodCond(BoolConds(c)[i])
GoodFilters(f) == IsNone(f) \/ (f.k = "list" /\ \A i \in 1..Len(f.c) : GoodCond(f.c[i]))
GoodGroups(g) == IsNone(g) \/ (g.k = "list" /\ \A i \in 1..Len(g.c) : GoodTag(g.c[i]))
FnNameOk(s) == s # "" /\ AllIn(s, AlnumU)
GoodMri(s) == LET q == BackQ \o s \o BackQ IN Ok(MetricP(q, 1)) /\ MetricP(q, 1).p = Len(q) + 1
                                              /\ MetricP(q, 1).x.c[2] = Str(s) /\ ~AnyIn(s, {BackQ}) /\ Strip(s, Space) = s
GoodPublic(s) == PublicEnd(s, 1) = Len(s) + 1
GoodMetric(m) == IF ~IsNone(m.c[2]) THEN IsNone(m.c[1]) /\ GoodMri(m.c[2].v)
                 ELSE GoodPublic(m.c[1].v)
\* no sign and at most 15 digits, so that the number reads back exactly
Positive(n) == n.k \in {"int", "float"} /\ ~Neg10(n.v)
GoodParam(p) == Positive(p) \/ (GoodStr(p))
GoodParams(p) == IsNone(p) \/ (p.k = "list" /\ \A i \in 1..Len(p.c) : GoodParam(p.c[i]))
ArithNames == DOMAIN Infix
GoodOperand(p) == p.k \in {"int", "float"}
RECURSIVE Expressible(_)
Expressible(x) ==
    CASE x.k = "ts" -> /\ GoodMetric(x.c[1]) /\ IsNone(x.c[1].c[3]) /\ FnNameOk(x.c[2].v) /\ x.c[2].v # Placeholder
                       /\ GoodParams(x.c[3]) /\ GoodFilters(x.c[4]) /\ GoodGroups(x.c[5])
      [] x.k = "formula" ->
           /\ x.c[2].k \in SeqKinds /\ Len(x.c[2].c) > 0
           /\ \A i \in 1..Len(x.c[2].c) : IF x.c[2].c[i].k \in {"ts", "formula"} THEN Expressible(x.c[2].c[i])
                                          ELSE GoodOperand(x.c[2].c[i])
           /\ GoodFilters(x.c[4]) /\ GoodGroups(x.c[5])
           /\ IF x.c[1].v \in ArithNames
              THEN Len(x.c[2].c) = 2 /\ ~Truthy(x.c[3])
              ELSE IF x.c[1].v = "negate"
              THEN Len(x.c[2].c) = 1 /\ x.c[2].c[1].k \in {"ts", "formula"} /\ ~Truthy(x.c[3])
              ELSE FnNameOk(x.c[1].v) /\ GoodParams(x.c[3])
      [] OTHER -> FALSE
==============================================================================
