------------------------------ MODULE SdkFind ------------------------------
(***************************************************************************)
(* Searching a query for expressions, and telling aggregates.              *)
(***************************************************************************)
EXTENDS SdkRequest

\* The outermost occurrences of the given kinds
RECURSIVE FindKinds(_, _)
FindKinds(n, ks) ==
    IF n.k \in ks THEN {n}
    ELSE IF n.k \in {"entity", "storage", "rel", "join", "dm"} THEN {}
    ELSE UNION {FindKinds(n.c[i], ks) : i \in 1..Len(n.c)}
FindInQuery(q, ks) == UNION {FindKinds(q.c[i], ks) : i \in 2..Len(q.c)}

AggBase == {"count", "min", "max", "sum", "avg", "any", "stddevPop", "stddevSamp", "varPop", "varSamp",
    "covarPop", "covarSamp", "anyHeavy", "anyLast", "argMin", "argMax", "avgWeighted", "topK", "topKWeighted",
    "groupArray", "groupUniqArray", "groupArrayInsertAt", "groupArrayMovingAvg", "groupArrayMovingSum",
    "groupBitAnd", "groupBitOr", "groupBitXor", "groupBitmap", "groupBitmapAnd", "groupBitmapOr",
    "groupBitmapXor", "sumWithOverflow", "sumMap", "minMap", "maxMap", "skewSamp", "skewPop", "kurtSamp",
    "kurtPop", "uniq", "uniqExact", "uniqCombined", "uniqCombined64", "uniqHLL12", "quantile", "quantiles",
    "quantileExact", "quantileExactLow", "quantileExactHigh", "quantileExactWeighted", "quantileTiming",
    "quantileTimingWeighted", "quantileDeterministic", "quantileTDigest", "quantileTDigestWeighted",
    "simpleLinearRegression", "stochasticLinearRegression", "stochasticLogisticRegression",
    "categoricalInformationValue", "histogram", "sequenceMatch", "sequenceCount", "windowFunnel", "retention",
    "uniqUpTo", "sumMapFiltered", "apdex", "failure_rate"}
AggSuffix == {"", "If", "Array", "SampleState", "State", "Merge", "MergeState", "ForEach", "OrDefault", "OrNull",
    "Resample"}
Aggregates == {b \o x : b \in AggBase, x \in AggSuffix}

\* The names called in a legacy function string: the word before each "("
RECURSIVE BackRun(_, _)
BackRun(s, i) == IF i >= 1 /\ Ch(s, i) \in AlnumU THEN BackRun(s, i - 1) ELSE i + 1
CalledAt(s, p) == LET a == Run(s, BackRun(s, p - 1), Digit) IN IF a < p THEN SubSeq(s, a, p - 1) ELSE ""
Called(s) == {CalledAt(s, p) : p \in {i \in 1..Len(s) : Ch(s, i) = "("}}
\* aliases: a node, none or a set of strings
AliasSet(a) == IF IsNone(a) THEN {} ELSE {a.c[i].v : i \in 1..Len(a.c)}
IsAggName(s, aliases) ==
    \/ s \in Aggregates
    \/ Until(s, 1, {"("}) <= Len(s) /\ (Called(s) \cap Aggregates # {} \/ \E a \in AliasSet(aliases) : a = "" \/ ContainsStr(s, a))
RECURSIVE IsAggregate(_, _)
IsAggregate(f, aliases) ==
    \/ IsAggName(FName(f).v, aliases)
    \/ /\ ~IsNone(FParams(f))
       /\ \E i \in 1..Len(Elems(FParams(f))) :
             LET p == Elems(FParams(f))[i]
             IN \/ p.k = "col" /\ p.c[1].v \in AliasSet(aliases)
                \/ p.k \in FnKinds /\ IsAggregate(p, aliases)
RECURSIVE HasColumn(_, _)
HasColumn(col, f) ==
    /\ ~IsNone(FParams(f))
    /\ \E i \in 1..Len(Elems(FParams(f))) :
          LET p == Elems(FParams(f))[i]
          IN p = col \/ (p.k \in FnKinds /\ HasColumn(col, p))
==============================================================================
