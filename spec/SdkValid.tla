------------------------------ MODULE SdkValid ------------------------------
(***************************************************************************)
(* Which values the constructors accept.  NewErrs(n) is the set of         *)
(* exception classes that constructing n may raise, one per violated       *)
(* constraint; the empty set means construction must succeed.  The         *)
(* children of n have been constructed already, so only the node itself is *)
(* judged.                                                                 *)
(***************************************************************************)
EXTENDS SdkNodes

If(p, cls) == IF p THEN {cls} ELSE {}

------------------------------------------------------------------------------
ColTail == Word \cup {".", ":", "/", "@"}
NoBracket(s) == ~AnyIn(s, {"[", "]"})
\* [a-zA-Z_](\w|.|:|/|@)* optionally followed by [key]
ColumnName(s) ==
    /\ s # ""
    /\ Ch(s, 1) \in Alpha \cup {"_"}
    /\ LET b == Until(s, 1, {"["})
       IN IF b > Len(s) THEN AllIn(s, ColTail)
          ELSE /\ AllIn(SubSeq(s, 1, b - 1), ColTail)
               /\ EndsWith(s, "]")
               /\ b < Len(s)
               /\ NoBracket(SubSeq(s, b + 1, Len(s) - 1))
Subscriptable(s) == LET b == Until(s, 1, {"["}) IN IF b > Len(s) THEN s ELSE SubSeq(s, 1, b - 1)
SubKey(s) == LET b == Until(s, 1, {"["}) IN IF b > Len(s) THEN "" ELSE SubSeq(s, b + 1, Len(s) - 1)
HasSub(s) == Until(s, 1, {"["}) <= Len(s)

FunctionName(s) ==
    /\ Len(s) >= 2
    /\ Ch(s, 1) \in Alpha
    /\ AllIn(From(s, 2), Word \cup {"(", ")", ".", ",", "+", "'", "\"", ":", " ", "[", "]", "-"})
AliasChars == AlnumU \cup {".", "+", "*", "/", ":", "-", "[", "]", "(", ")", "@"}
IdentName(s) == s # "" /\ Ch(s, 1) \in Alpha \cup {"_"} /\ AllIn(s, AlnumU)
EntityName(s) == s # "" /\ AllIn(s, Alpha \cup {"_"})

GoodAlias(a) == IsNone(a) \/ (a.k = "str" /\ a.v # "" /\ AllIn(a.v, AliasChars))
GoodIdent(i) == i.k = "str" /\ IdentName(i.v)

\* m: an entity or storage, possibly with a data model
InModel(name, m) == LET dm == MatchDm(m) IN IsNone(dm) \/ Subscriptable(name) \in DmNames(dm)

ColErrs(n) ==
    LET name == n.c[1]  e == n.c[2]
    IN If(name.k # "str" \/ (name.k = "str" /\ ~ColumnName(name.v)), "InvalidColumnError")
       \cup If(~IsNone(e) /\ e.k # "entity", "InvalidColumnError")
       \cup If(e.k = "entity" /\ IsNone(e.c[2]), "InvalidColumnError")
       \cup If(e.k = "entity" /\ name.k = "str" /\ ~InModel(name.v, e), "InvalidColumnError")

AliasedErrs(n) == If(n.c[1].k # "col", "InvalidExpressionError")
                  \cup If(~GoodAlias(n.c[2]), "InvalidExpressionError")

ParamErrs(p) ==
    IF p.k \in {"col", "cfn", "fn", "ident", "lambda"} THEN {}
    ELSE LET s == ScalarKind(p)
         IN If(s = "no", "InvalidFunctionError") \cup If(s = "raise", "InvalidExpressionError")

FnErrs(n) ==
    LET f == FName(n)  ini == FInit(n)  ps == FParams(n)
    IN If(f.k # "str" \/ (f.k = "str" /\ ~FunctionName(f.v)), "InvalidFunctionError")
       \cup (IF IsNone(ini) THEN {}
             ELSE IF ~IsSequence(ini) THEN {"InvalidFunctionError"}
             ELSE If(\E i \in 1..Len(Elems(ini)) : ~(Elems(ini)[i].k = "col" \/ IsLiteral(Elems(ini)[i])),
                     "InvalidFunctionError"))
       \cup If(~GoodAlias(FAlias(n)), "InvalidFunctionError")
       \cup (IF IsNone(ps) THEN {}
             ELSE IF ~IsSequence(ps) THEN {"InvalidFunctionError"}
             ELSE UnionAll(Elems(ps), ParamErrs))

LambdaErrs(n) ==
    (IF n.c[1].k \notin SeqKinds THEN {"InvalidLambdaError"}
     ELSE If(\E i \in 1..Len(n.c[1].c) : ~GoodIdent(n.c[1].c[i]), "InvalidLambdaError"))
    \cup If(n.c[2].k \notin FnKinds, "InvalidLambdaError")

SampleErrs(s, cls) ==
    If(~IsNone(s) /\ s.k # "float", cls)
    \cup If(s.k = "float" /\ (FloatIsNeg(s.v) \/ FloatIsZero(s.v)), cls)

EntityErrs(n) ==
    If(n.c[1].k # "str" \/ (n.c[1].k = "str" /\ ~EntityName(n.c[1].v)), "InvalidEntityError")
    \cup SampleErrs(n.c[3], "InvalidEntityError")
    \cup If(~IsNone(n.c[2]) /\ ~(n.c[2].k = "str" /\ n.c[2].v # ""), "InvalidEntityError")
    \cup If(n.c[4].k \notin {"none", "dm"}, "InvalidEntityError")

StorageErrs(n) ==
    If(n.c[1].k # "str" \/ (n.c[1].k = "str" /\ ~EntityName(n.c[1].v)), "InvalidStorageError")
    \cup SampleErrs(n.c[2], "InvalidStorageError")
    \cup If(n.c[3].k \notin {"none", "dm"}, "InvalidStorageError")

RelErrs(n) ==
    If(n.c[1].k # "entity" \/ n.c[3].k # "entity", "InvalidExpressionError")
    \cup If(n.c[1].k = "entity" /\ IsNone(n.c[1].c[2]), "InvalidExpressionError")
    \cup If(n.c[3].k = "entity" /\ IsNone(n.c[3].c[2]), "InvalidExpressionError")
    \cup If(~(n.c[2].k = "str" /\ n.c[2].v # ""), "InvalidExpressionError")

JoinEntities(j) == LET rs == j.c[1].c IN {rs[i].c[1] : i \in 1..Len(rs)} \cup {rs[i].c[3] : i \in 1..Len(rs)}
AliasOf(e) == e.c[2].v
NameOf(e) == e.c[1].v
JoinErrs(n) ==
    IF n.c[1].k \notin SeqKinds THEN {"InvalidExpressionError"}
    ELSE IF Len(n.c[1].c) = 0 THEN {"InvalidExpressionError"}
    ELSE IF \E i \in 1..Len(n.c[1].c) : n.c[1].c[i].k # "rel" THEN {"InvalidExpressionError"}
    ELSE LET es == {<<AliasOf(e), NameOf(e)>> : e \in JoinEntities(n)}
         IN If(\E x, y \in es : x[1] = y[1] /\ x[2] # y[2], "InvalidExpressionError")

CondErrs(n) ==
    LET l == n.c[1]  o == n.c[2]  r == n.c[3]
    IN If(l.k \notin {"col", "cfn", "fn"}, "InvalidConditionError")
       \cup If(o.k # "op", "InvalidConditionError")
       \cup If(o.k = "op" /\ o.v \in UnaryOps /\ ~IsNone(r), "InvalidConditionError")
       \cup (IF r.k \in {"col", "cfn", "fn"} THEN {}
             ELSE LET s == ScalarKind(r)
                  IN If(s = "no", "InvalidConditionError") \cup If(s = "raise", "InvalidExpressionError"))

CondsErrs(cs) ==
    IF cs.k \notin SeqKinds THEN {"InvalidConditionError"}
    ELSE If(Len(cs.c) < 2, "InvalidConditionError")
         \cup If(\E i \in 1..Len(cs.c) : cs.c[i].k \notin CondKinds, "InvalidConditionError")

IntErrs(n, lo, hi) ==
    IF ~IsIntLike(n) THEN {"InvalidExpressionError"}
    ELSE If(lo # "" /\ Less10(IntText(n), lo), "InvalidExpressionError")
         \cup If(hi # "" /\ Less10(hi, IntText(n)), "InvalidExpressionError")

LimitByErrs(n) ==
    LET cs == n.c[1]
    IN (IF ~IsSequence(cs) THEN {"InvalidExpressionError"}
        ELSE If(Len(Elems(cs)) = 0, "InvalidExpressionError")
             \cup If(\E i \in 1..Len(Elems(cs)) : Elems(cs)[i].k # "col", "InvalidExpressionError"))
       \cup IntErrs(n.c[2], "1", "10000")

ExprErrs(n) ==
    CASE n.k = "col" -> ColErrs(n)
      [] n.k = "aliased" -> AliasedErrs(n)
      [] n.k \in FnKinds -> FnErrs(n)
      [] n.k = "ident" -> If(~GoodIdent(n.c[1]), "InvalidLambdaError")
      [] n.k = "lambda" -> LambdaErrs(n)
      [] n.k = "entity" -> EntityErrs(n)
      [] n.k = "storage" -> StorageErrs(n)
      [] n.k = "rel" -> RelErrs(n)
      [] n.k = "join" -> JoinErrs(n)
      [] n.k = "cond" -> CondErrs(n)
      [] n.k \in {"and", "or"} -> CondsErrs(n.c[1])
      [] n.k = "bcond" -> If(n.c[1].k # "bop", "InvalidConditionError") \cup CondsErrs(n.c[2])
      [] n.k = "orderby" -> If(n.c[1].k \notin {"col", "cfn", "fn"}, "InvalidExpressionError")
                            \cup If(n.c[2].k # "dir", "InvalidExpressionError")
      [] n.k = "limitby" -> LimitByErrs(n)
      [] n.k = "limit" -> IntErrs(n.c[1], "1", "10000")
      [] n.k = "offset" -> IntErrs(n.c[1], "0", "")
      [] n.k = "gran" -> IntErrs(n.c[1], "1", "")
      [] n.k \in {"totals", "extrap"} -> If(n.c[1].k # "bool", "InvalidExpressionError")
      [] OTHER -> {}
==============================================================================
