------------------------------ MODULE SdkOpt ------------------------------
(***************************************************************************)
(* Rewriting  x = a OR x = b ...  to  x IN [a, b, ...].  The rewriting is   *)
(* an optimization, so the specification is a relation: each eligible      *)
(* condition of the list may or may not be rewritten.                      *)
(***************************************************************************)
EXTENDS SdkSnql

\* The same expression for the reader of the query: the same fully qualified text
SameExpr(a, b) == Vis(a, Snql(TRUE)) = Vis(b, Snql(TRUE))

Eligible(c) ==
    /\ c.k \in BoolKinds /\ BoolOp(c) = "OR"
    /\ LET cs == BoolConds(c)
       IN /\ \A i \in 1..Len(cs) : cs[i].k = "cond" /\ cs[i].c[2].v = "EQ"
          /\ \A i \in 2..Len(cs) : SameExpr(cs[1].c[1], cs[i].c[1])
Rewritten(c) ==
    LET cs == BoolConds(c)
    IN CondN(cs[1].c[1], "IN", ListN([i \in 1..Len(cs) |-> cs[i].c[3]]))

\* Every list obtained by rewriting some of the eligible conditions
EligibleIdx(cs) == {i \in 1..Len(cs) : Eligible(cs[i])}
Choices(cs) == {[i \in 1..Len(cs) |-> IF i \in S THEN Rewritten(cs[i]) ELSE cs[i]] : S \in SUBSET EligibleIdx(cs)}
FullyRewritten(cs) == [i \in 1..Len(cs) |-> IF Eligible(cs[i]) THEN Rewritten(cs[i]) ELSE cs[i]]

\* The permitted serializations of a query
SerializedTexts(q) ==
    IF QWhere(q).k \notin SeqKinds THEN {QueryText(q, " ")}
    ELSE LET w == QWhere(q)
             full == QueryText(SetField(q, 5, [w EXCEPT !.c = FullyRewritten(w.c)]), " ")
         IN IF EligibleIdx(w.c) = {} THEN {full}
            ELSE IF Cardinality(EligibleIdx(w.c)) > 3 THEN {full, QueryText(q, " ")}
            ELSE {QueryText(SetField(q, 5, [w EXCEPT !.c = cs]), " ") : cs \in Choices(w.c)}
PrintedText(q) == QueryText(q, "\n")

------------------------------------------------------------------------------
(* What conditions mean, for checking that the rewriting preserves it: the  *)
(* three-valued truth of a condition, given the truth of the atoms.  An     *)
(* atom is a (fully qualified) left-hand side, operator and right-hand      *)
(* side; x IN [a, b] is the disjunction of the atoms x = a, x = b.          *)
F3 == 0  U3 == 1  T3 == 2
Min3(S) == IF F3 \in S THEN F3 ELSE IF U3 \in S THEN U3 ELSE T3
Max3(S) == IF T3 \in S THEN T3 ELSE IF U3 \in S THEN U3 ELSE F3
AtomOf(l, op, r) == <<Vis(l, Snql(TRUE)), op, Vis(r, Snql(TRUE))>>
RECURSIVE AtomsOf(_)
AtomsOf(c) ==
    IF c.k = "cond"
    THEN IF c.c[2].v = "IN" /\ c.c[3].k \in SeqKinds
         THEN {AtomOf(c.c[1], "EQ", c.c[3].c[i]) : i \in 1..Len(c.c[3].c)}
         ELSE {AtomOf(c.c[1], c.c[2].v, c.c[3])}
    ELSE UNION {AtomsOf(BoolConds(c)[i]) : i \in 1..Len(BoolConds(c))}
RECURSIVE Truth(_, _)
Truth(c, env) ==
    IF c.k = "cond"
    THEN IF c.c[2].v = "IN" /\ c.c[3].k \in SeqKinds
         THEN Max3({env[AtomOf(c.c[1], "EQ", c.c[3].c[i])] : i \in 1..Len(c.c[3].c)})
         ELSE env[AtomOf(c.c[1], c.c[2].v, c.c[3])]
    ELSE LET ts == {Truth(BoolConds(c)[i], env) : i \in 1..Len(BoolConds(c))}
         IN IF BoolOp(c) = "AND" THEN Min3(ts) ELSE Max3(ts)
AllTruth(cs, env) == Min3({Truth(cs[i], env) : i \in 1..Len(cs)})
SameMeaning(cs, ds) ==
    LET as == UNION {AtomsOf(cs[i]) : i \in 1..Len(cs)} \cup UNION {AtomsOf(ds[i]) : i \in 1..Len(ds)}
    IN \A env \in [as -> {F3, U3, T3}] : AllTruth(cs, env) = AllTruth(ds, env)
==============================================================================
