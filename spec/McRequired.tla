----------------------------- MODULE McRequired -----------------------------
(***************************************************************************)
(* C07: data models, matches, the conditions that constrain the required   *)
(* columns, near misses of each of them, and all ways of nesting them.      *)
(***************************************************************************)
EXTENDS Mc

T == Scol("time", FALSE)
Models == << DmN(<<Scol("p", TRUE), Scol("time", FALSE), Scol("x", FALSE)>>, T),       \* one required column
             DmN(<<Scol("time", TRUE), Scol("x", FALSE)>>, Scol("time", TRUE)),        \* the time column is required, too
             DmN(<<Scol("p", TRUE), Scol("q", TRUE), Scol("time", FALSE)>>, T),
             DmN(<<Scol("x", FALSE)>>, T) >>
M1 == Models[1]
E(name, alias, m) == EntityN(name, IF alias = "" THEN None ELSE Str(alias), None, m)
Ea == E("events", "e", M1)
Ta == E("sessions", "t", M1)
Ua == E("events", "u", M1)      \* the same entity under another alias
Single == << E("events", "", Models[1]), E("events", "", Models[2]), E("events", "", Models[3]), E("events", "", Models[4]),
             E("events", "e", M1), E("events", "", None), StorageN("events", None, M1) >>
Joins == << JoinN(<<RelN(Ea, "r", Ta)>>), JoinN(<<RelN(Ta, "r", Ea)>>), JoinN(<<RelN(Ea, "r", Ua)>>),
            JoinN(<<RelN(Ea, "r", E("sessions", "t", None))>>), JoinN(<<RelN(E("sessions", "t", None), "r", Ea)>>),
            JoinN(<<RelN(Ea, "r", E("sessions", "t", Models[4]))>>),
            JoinN(<<RelN(Ea, "r", E("sessions", "t", None)), RelN(E("sessions", "t", None), "s", Ua)>>),
            JoinN(<<RelN(Ea, "r", Ta), RelN(Ea, "s", Ua)>>) >>
Matches == Single \o Joins
\* the query that is read from: the match itself, or nested in outer queries with any where
Base(m) == Qs(m, <<Count>>)

Tm == DtN(2024, 1, 1, 0, 0, 0, 0, None)
X == CondN(Col("x"), "EQ", IntN(9))
\* near misses and equivalents of "p = 1", "time >= ..", "time < .."
Ps(e) == {CondN(ColE("p", e), o, IntN(1)) : o \in OpNames \ UnaryOps} \cup
         {CondN(ColE("p", e), "IN", ListN(<<IntN(1), IntN(2)>>)), CondN(ColE("p", e), "IS_NULL", None), CondN(ColE("p[k]", e), "EQ", IntN(1)),
          CondN(ColE("pp", e), "EQ", IntN(1)), CondN(ColE("P", e), "EQ", IntN(1)), CondN(Fn("f1", <<ColE("p", e)>>), "EQ", IntN(1)),
          CondN(ColE("x", e), "EQ", ColE("p", e)), CondN(ColE("p", e), "EQ", ColE("p", e)), CondN(ColE("p", e), "EQ", None),
          CondN(ColE("p", e), "IN", TupN(<<>>)), CondN(ColE("p", e), "EQ", Fn("f1", <<>>)), CondN(ColE("q", e), "EQ", IntN(1)),
          CondN(Cfn("f1", None, ListN(<<ColE("p", e)>>), Str("p")), "EQ", IntN(1)), CondN(ColE("x.p", e), "EQ", IntN(1)), CondN(ColE("p.x", e), "EQ", IntN(1)), CondN(ColE("ep", e), "EQ", IntN(1)), CondN(ColE("e.p", e), "EQ", IntN(1)),
          CondN(ColE("x[p]", e), "EQ", IntN(1)), CondN(ColE("_p", e), "EQ", IntN(1)), CondN(ColE("p_", e), "EQ", IntN(1)), CondN(ColE("x:p", e), "EQ", IntN(1)), CondN(Fn("p", <<>>), "EQ", IntN(1)), CondN(FnA("f1", <<>>, "p"), "EQ", IntN(1))}
Ls(e) == {CondN(ColE("time", e), o, Tm) : o \in OpNames \ UnaryOps} \cup
         {CondN(ColE("time[k]", e), "GTE", Tm), CondN(ColE("timee", e), "GTE", Tm), CondN(ColE("x.time", e), "GTE", Tm), CondN(ColE("time.x", e), "GTE", Tm), CondN(ColE("Time", e), "GTE", Tm), CondN(Fn("f1", <<ColE("time", e)>>), "GTE", Tm),
          CondN(ColE("time", e), "IS_NOT_NULL", None), CondN(ColE("time", e), "GTE", Str("2024")), CondN(ColE("time", e), "GTE", Fn("now", <<>>)),
          CondN(ColE("time", e), "LT", Str("2024"))}
P(e) == CondN(ColE("p", e), "EQ", IntN(1))
Qc(e) == CondN(ColE("q", e), "IN", TupN(<<IntN(1)>>))
Lo(e) == CondN(ColE("time", e), "GTE", Tm)
Hi(e) == CondN(ColE("time", e), "LT", Tm)

Nestings(a, b, c) == <<
    <<a, b, c>>, <<c, b, a>>, <<AndN(<<a, b, c>>)>>, <<AndN(<<a, b>>), c>>, <<a, AndN(<<b, c>>)>>, <<BcondN("AND", <<a, b, c>>)>>,
    <<AndN(<<AndN(<<a, b>>), c>>)>>, <<AndN(<<a, BcondN("AND", <<b, AndN(<<c, X>>)>>)>>)>>, <<X, a, X, b, X, c>>,
    <<OrN(<<X, X>>), a, b, c>>, <<AndN(<<OrN(<<X, X>>), a>>), b, c>>, <<a, b, OrN(<<a, X>>), c>>,
    <<OrN(<<a, b>>), c>>, <<OrN(<<a, X>>), b, c>>, <<a, OrN(<<b, X>>), c>>, <<a, b, OrN(<<c, X>>)>>, <<a, b, OrN(<<c, c>>)>>,
    <<AndN(<<OrN(<<a, X>>), b>>), c>>, <<AndN(<<a, b, OrN(<<c, X>>)>>)>>, <<OrN(<<AndN(<<a, b, c>>), X>>)>>,
    <<BcondN("OR", <<AndN(<<a, b, c>>), AndN(<<a, b, c>>)>>)>>, <<a, BcondN("OR", <<X, b>>), c>>, <<AndN(<<a, OrN(<<AndN(<<b, c>>), X>>)>>)>>,
    <<a, b>>, <<a, c>>, <<b, c>>, <<a>>, <<a, a, b>>, <<a, b, b>>, <<>> >>
NN == Len(Nestings(X, X, X))
Wheres(cs) == ListN(cs)
\* a where clause on m, and on queries around it (whose own conditions count for nothing)
Placed(m, cs, depth) ==
    LET q == Where(Base(m), cs)
    IN CASE depth = 0 -> q
         [] depth = 1 -> Base(q)
         [] depth = 2 -> Base(Base(q))
         [] depth = 3 -> Where(Base(Base(m)), cs)             \* conditions on the outer query only
         [] depth = 4 -> With(Base(m), "having", ListN(cs))
         [] depth = 5 -> With(q, "where", TupN(cs))
         [] depth = 6 -> Base(m)
N0 == None
Near(m) == {Placed(m, <<a, Lo(N0), Hi(N0)>>, 0) : a \in Ps(N0)} \cup {Placed(m, <<P(N0), l, h>>, 0) : l \in Ls(N0), h \in Ls(N0)}
           \cup {Placed(m, <<P(N0), Qc(N0), l, Hi(N0)>>, 0) : l \in Ls(N0)} \cup {Placed(m, <<AndN(<<Qc(N0), a>>), Lo(N0), Hi(N0)>>, 0) : a \in Ps(N0)}
Extra == IF Deep THEN {Ent("other", "e"), Ent("events", "z")} ELSE {Ent("other", "e")}
Aliases == Extra \cup {None, Ent("events", "e"), Ent("sessions", "t"), Ent("events", "u")}
InNests(m, e) == {Placed(m, Nestings(P(e), Lo(e), Hi(e))[i], d) : i \in 1..NN, d \in 0..5}
\* joins: each condition for each alias, or for none
Owners == {Ent("events", "e"), Ent("sessions", "t")} \cup (IF Deep THEN {None, Ent("events", "u"), Ent("sessions", "e")} ELSE {})
PerOwner(m) == {Placed(m, <<P(a), Lo(b), Hi(c)>>, 0) : a \in Aliases, b \in Aliases, c \in Aliases}
               \cup {Placed(m, <<P(a), Lo(a), Hi(a), P(b), Lo(c), Hi(b)>>, 0) : a \in Aliases, b \in Aliases, c \in Aliases}
               \cup {Placed(m, <<P(a), Lo(a), Hi(a), AndN(<<P(b), Lo(b), Hi(b)>>)>>, d) : a \in Aliases, b \in Aliases, d \in {0, 1, 3}}
               \cup {Placed(m, <<P(a), Lo(a), Hi(a), AndN(<<P(b), Lo(b), Hi(b)>>), P(c), AndN(<<Lo(c), Hi(c)>>)>>, 0) : a \in Aliases, b \in Aliases, c \in Aliases}
               \cup {Placed(m, <<P(a), Lo(a), Hi(a)>> \o Nestings(P(b), Lo(b), Hi(b))[i], 0) : a \in Owners, b \in Owners, i \in 1..NN}
\* every subset of the conditions in the where clause, the rest in another place that counts for nothing
Parts == [1..3 -> 0..1]
Sub(cs, f, b) == SelectSeq([i \in 1..3 |-> IF f[i] = b THEN cs[i] ELSE X], LAMBDA c : c # X)
Split(m, cs, f, w) ==
    LET here == Where(Base(m), Sub(cs, f, 0))
        rest == Sub(cs, f, 1)
    IN CASE w = 1 -> Where(Base(here), rest)
         [] w = 2 -> With(here, "having", ListN(rest))
         [] w = 3 -> Where(Base(Base(here)), rest)
         [] w = 4 -> Base(With(here, "having", ListN(rest)))
         [] w = 5 -> With(Base(here), "having", ListN(rest))
         [] w = 6 -> Where(Base(Where(Base(here), rest)), rest)
         [] w = 7 -> Where(here, Sub(cs, f, 0) \o <<OrN(rest \o <<X, X>>)>>)
         [] w = 8 -> Where(Base(here), <<AndN(rest \o <<X, X>>)>>)
         [] w = 9 -> Where(here, <<AndN(Sub(cs, f, 0) \o <<X, OrN(rest \o <<X, X>>)>>), X>>)
         [] w = 10 -> With(here, "select", ListN(<<Fn("f1", <<Col("p"), Col("time")>>)>>))
Splits(m, e) == {Split(m, <<P(e), Lo(e), Hi(e)>>, f, w) : f \in Parts, w \in 1..10}
McGroups == Len(Matches)
McCases(g) == LET m == Matches[g]
              IN {C("required", <<q>>) : q \in (IF m.k # "join" THEN Near(m) \cup Splits(m, None) \cup InNests(m, None) \cup InNests(m, Ent("events", "e")) \cup InNests(m, Ent("events", "z"))
                                                ELSE PerOwner(m) \cup Splits(m, None) \cup InNests(m, None))}

------------------------------------------------------------------------------
(* Laws *)
Q == last[2][1]
\* another conjunct never makes a constrained query unconstrained; a disjunct on top of everything always does
\* (unless nothing is required)
Reads(q) == IF QMatch(q).k = "query" THEN {} ELSE IF QMatch(q).k = "join" THEN JoinEntities(QMatch(q)) ELSE IF QMatch(q).k = "entity" THEN {QMatch(q)} ELSE {}
Demanding(q) == \E e \in Reads(q) : ~IsNone(e.c[4])
LawMonotone == Done /\ QWhere(Q).k = "list" /\ RequiredOk(Q) => RequiredOk(Where(Q, QWhere(Q).c \o <<X>>)) /\ RequiredOk(Where(Q, <<OrN(<<X, X>>)>> \o QWhere(Q).c))
LawOr == Done /\ QWhere(Q).k = "list" /\ Len(QWhere(Q).c) > 0 /\ Demanding(Q) => ~RequiredOk(Where(Q, <<OrN(<<AndN(QWhere(Q).c \o <<X>>), X>>)>>))
LawAnd == Done /\ QWhere(Q).k = "list" /\ Len(QWhere(Q).c) > 1 => (RequiredOk(Q) <=> RequiredOk(Where(Q, <<AndN(QWhere(Q).c)>>)))
Laws == LawMonotone /\ LawOr /\ LawAnd
==============================================================================
