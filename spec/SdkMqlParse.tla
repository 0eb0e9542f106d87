---------------------------- MODULE SdkMqlParse ----------------------------
(***************************************************************************)
(* What an MQL string means.  The grammar is a PEG: ordered choice, greedy *)
(* repetition without backtracking into it.  A recognizer at position i of *)
(* s yields R(position after the match, value) or Fail.  The value Bad     *)
(* marks text that is grammatical but means nothing (a variable, a tag     *)
(* name that is no column name, ...): such a string is rejected.           *)
(***************************************************************************)
EXTENDS SdkMqlPrint

R(p, x) == [p |-> p, x |-> x]
Fail == R(0, None)
Ok(r) == r.p > 0
Bad == N("bad", "", <<>>)
IsBad(n) == n.k = "bad"

Ws(s, i) == Run(s, i, WsRe)
At(s, i, c) == i <= Len(s) /\ Ch(s, i) = c
Placeholder == "AGGREGATE_PLACEHOLDER"

TagChars == AlnumU \cup {"."}
UnqStop == WsRe \cup {",", "[", "]", "\"", "}", "{", "(", ")", "*"}
BackQ == "`"

\* "...", with \ escaping any character but a newline; the position after the closing quote, 0 if none
RECURSIVE QuoteEnd(_, _)
QuoteEnd(s, i) ==
    IF i > Len(s) THEN 0
    ELSE IF Ch(s, i) = "\"" THEN i + 1
    ELSE IF Ch(s, i) = "\\" THEN (IF i + 1 > Len(s) \/ Ch(s, i + 1) = "\n" THEN 0 ELSE QuoteEnd(s, i + 2))
    ELSE QuoteEnd(s, i + 1)
\* \" becomes " ; every other character, also a backslash, stands for itself
RECURSIVE Unquote(_)
Unquote(t) ==
    LET p == {i \in 1..(Len(t) - 1) : Ch(t, i) = "\\" /\ Ch(t, i + 1) = "\""}
    IN IF p = {} THEN t
       ELSE LET i == CHOOSE x \in p : \A y \in p : x <= y
            IN SubSeq(t, 1, i - 1) \o "\"" \o Unquote(From(t, i + 2))
Quoted(s, i) ==
    IF ~At(s, i, "\"") THEN Fail
    ELSE LET e == QuoteEnd(s, i + 1)
         IN IF e = 0 THEN Fail ELSE R(e, Str(Unquote(SubSeq(s, i + 1, e - 2))))
Unquoted(s, i) == LET e == Until(s, i, UnqStop) IN IF e = i THEN Fail ELSE R(e, Str(SubSeq(s, i, e - 1)))

\* A number is a float; its value as Python writes it
RECURSIVE DropLead(_)
DropLead(t) == IF Len(t) > 1 /\ Ch(t, 1) = "0" THEN DropLead(From(t, 2)) ELSE t
RECURSIVE DropTrail(_)
DropTrail(t) == IF Len(t) > 1 /\ Ch(t, Len(t)) = "0" THEN DropTrail(SubSeq(t, 1, Len(t) - 1)) ELSE t
LeadZeros(t) == Run(t, 1, {"0"}) - 1
ExpText(e) == IF e < 0 THEN "e-" \o Pad(0 - e, 2) ELSE "e+" \o Pad(e, 2)
\* digits d1d2.. as d1[.d2..]
Mant(ds) == IF Len(ds) = 1 THEN ds ELSE Ch(ds, 1) \o "." \o From(ds, 2)
FloatRepr(ip, fp) ==
    LET i0 == DropLead(ip)
        f0 == DropTrail(fp)
    IN IF i0 = "0"
       THEN IF f0 = "" \/ AllIn(f0, {"0"}) THEN "0.0"
            ELSE LET z == LeadZeros(f0)
                 IN IF z >= 4 THEN Mant(From(f0, z + 1)) \o ExpText(0 - (z + 1)) ELSE "0." \o f0
       ELSE IF Len(i0) > 16
            THEN Mant(DropTrail(i0 \o (IF f0 = "0" THEN "" ELSE f0))) \o ExpText(Len(i0) - 1)
            ELSE i0 \o "." \o (IF f0 = "" THEN "0" ELSE f0)
Number(s, i) ==
    LET e == Run(s, i, Digit)
    IN IF e = i THEN Fail
       ELSE LET f == IF At(s, e, ".") THEN Run(s, e + 1, Digit) ELSE e
                hasFrac == At(s, e, ".") /\ f > e + 1
            IN R(IF hasFrac THEN f ELSE e,
                 Flt(FloatRepr(SubSeq(s, i, e - 1), IF hasFrac THEN SubSeq(s, e + 1, f - 1) ELSE "")))
NegateFloat(n) == Flt(IF Neg10(n.v) THEN From(n.v, 2) ELSE "-" \o n.v)

------------------------------------------------------------------------------
(* Metrics *)
\* run of characters outside `stop`, non-empty: the end, 0 if empty
Part(s, i, stop) == LET e == Until(s, i, stop) IN IF e = i THEN 0 ELSE e
MriStop == {"(", ")", "{", "}", "[", "]", "\"", BackQ, ","}
\* type:namespace/name@unit with the given forbidden characters per part
MriEnd(s, i, s1, s2, s3, s4) ==
    LET a == Part(s, i, s1)
    IN IF a = 0 \/ ~At(s, a, ":") THEN 0
       ELSE LET b == Part(s, a + 1, s2)
            IN IF b = 0 \/ ~At(s, b, "/") THEN 0
               ELSE LET c == Part(s, b + 1, s3)
                    IN IF c = 0 \/ ~At(s, c, "@") THEN 0 ELSE Part(s, c + 1, s4)
LenientMriEnd(s, i) == MriEnd(s, i, {":", BackQ}, {"/", BackQ}, {"@", ",", BackQ}, {BackQ})
StrictMriEnd(s, i) == MriEnd(s, i, MriStop \cup {":"}, MriStop \cup {"/"}, MriStop \cup {"@"}, MriStop)
NameChars == Lower \cup {"_"}
RECURSIVE MoreName(_, _)
MoreName(s, e) == IF At(s, e, ".") /\ Run(s, e + 1, NameChars) > e + 1
                  THEN MoreName(s, Run(s, e + 1, NameChars)) ELSE e
PublicEnd(s, i) == LET e == Run(s, i, NameChars) IN IF e = i THEN 0 ELSE MoreName(s, e)
MetricN(pub, mri) == N("metric", "", <<pub, mri, None>>)
MetricP(s, i) ==
    LET q == IF At(s, i, BackQ) THEN LenientMriEnd(s, i + 1) ELSE 0
        qOk == q > 0 /\ At(s, q, BackQ)
        u == IF qOk THEN 0 ELSE StrictMriEnd(s, i)
        qp == IF qOk \/ u > 0 THEN 0 ELSE IF At(s, i, BackQ) THEN PublicEnd(s, i + 1) ELSE 0
        qpOk == qp > 0 /\ At(s, qp, BackQ)
        p == IF qOk \/ u > 0 \/ qpOk THEN 0 ELSE PublicEnd(s, i)
    IN IF qOk THEN R(q + 1, MetricN(None, Str(SubSeq(s, i + 1, q - 1))))
       ELSE IF u > 0 THEN R(u, MetricN(None, Str(SubSeq(s, i, u - 1))))
       ELSE IF qpOk THEN R(qp + 1, MetricN(Str(SubSeq(s, i + 1, qp - 1)), None))
       ELSE IF p > 0 THEN R(p, MetricN(Str(SubSeq(s, i, p - 1)), None))
       ELSE Fail
TsN(m, agg, params, filters, groupby) == N("ts", "", <<m, Str(agg), params, filters, groupby>>)
FormulaN(f, ps, aps, filters, groupby) == N("formula", "", <<Str(f), ListN(ps), aps, filters, groupby>>)

------------------------------------------------------------------------------
(* Filters *)
VariableEnd(s, i) == IF At(s, i, "$") /\ Run(s, i + 1, TagChars) > i + 1 THEN Run(s, i + 1, TagChars) ELSE 0
ColNode(t) == IF ColumnName(t) THEN Col(t) ELSE Bad

\* tag values: [w |-> wildcard] carried as kinds "wild" / "plain" / "many"
TupleItem(s, i) == LET q == Quoted(s, i) IN IF Ok(q) THEN q ELSE Unquoted(s, i)
RECURSIVE TupleMore(_, _, _)
TupleMore(s, i, acc) ==       \* (_ comma _ item)*
    LET a == Ws(s, i)
    IN IF ~At(s, a, ",") THEN R(i, N("many", "", acc))
       ELSE LET it == TupleItem(s, Ws(s, a + 1))
            IN IF Ok(it) THEN TupleMore(s, it.p, Append(acc, it.x)) ELSE R(i, N("many", "", acc))
StringTuple(s, i) ==
    IF ~At(s, i, "[") THEN Fail
    ELSE LET f == TupleItem(s, Ws(s, i + 1))
         IN IF ~Ok(f) THEN Fail
            ELSE LET m == TupleMore(s, f.p, <<f.x>>)
                     e == Ws(s, m.p)
                 IN IF At(s, e, "]") THEN R(e + 1, m.x) ELSE Fail
TagValue(s, i) ==
    LET qu == IF At(s, i, "\"") THEN Unquoted(s, i + 1) ELSE Fail
        qw == Ok(qu) /\ At(s, qu.p, "*") /\ At(s, qu.p + 1, "\"")
        un == Unquoted(s, i)
        uw == Ok(un) /\ At(s, un.p, "*")
        qs == Quoted(s, i)
        st == StringTuple(s, i)
    IN IF qw THEN R(qu.p + 2, N("wild", qu.x.v \o "*", <<>>))
       ELSE IF uw THEN R(un.p + 1, N("wild", un.x.v \o "*", <<>>))
       ELSE IF Ok(qs) THEN R(qs.p, N("plain", qs.x.v, <<>>))
       ELSE IF Ok(un) THEN R(un.p, N("plain", un.x.v, <<>>))
       ELSE IF Ok(st) THEN st
       ELSE IF VariableEnd(s, i) > 0 THEN R(VariableEnd(s, i), Bad)
       ELSE Fail
CondFrom(neg, l, val) ==
    IF IsBad(l) \/ IsBad(val) THEN Bad
    ELSE CASE val.k = "wild" -> CondN(l, IF neg THEN "NOT_LIKE" ELSE "LIKE", Str(val.v))
           [] val.k = "many" -> CondN(l, IF neg THEN "NOT_IN" ELSE "IN", ListN(val.c))
           [] OTHER -> CondN(l, IF neg THEN "NEQ" ELSE "EQ", Str(val.v))
AnyBad(seq) == \E i \in 1..Len(seq) : IsBad(seq[i])
Combine(seq, op) == IF AnyBad(seq) THEN Bad
                    ELSE IF Len(seq) = 1 THEN seq[1]
                    ELSE IF op = "AND" THEN AndN(seq) ELSE OrN(seq)

RECURSIVE FilterExpr(_, _)
FilterFactor(s, i) ==
    LET j == IF At(s, i, "!") THEN i + 1 ELSE i
        v == VariableEnd(s, j)
        k == IF v > 0 THEN v ELSE (IF Run(s, j, TagChars) > j THEN Run(s, j, TagChars) ELSE 0)
        lhs == IF v > 0 THEN Bad ELSE IF k > 0 THEN ColNode(SubSeq(s, j, k - 1)) ELSE Bad
        c == IF k > 0 THEN Ws(s, k) ELSE 0
        val == IF k > 0 /\ At(s, c, ":") THEN TagValue(s, Ws(s, c + 1)) ELSE Fail
    IN IF Ok(val) THEN R(val.p, CondFrom(j > i, lhs, val.x))
       ELSE IF At(s, i, "(")
            THEN LET e == FilterExpr(s, Ws(s, i + 1))
                 IN IF Ok(e) /\ At(s, Ws(s, e.p), ")") THEN R(Ws(s, e.p) + 1, e.x) ELSE Fail
            ELSE Fail
\* the joint operator, if there is one at i: the position after it
JointEnd(s, i) ==
    IF At(s, i, ",") THEN i + 1
    ELSE IF (StartsAt(s, i, "AND") \/ StartsAt(s, i, "and")) /\ ~(i + 3 <= Len(s) /\ Ch(s, i + 3) \in TagChars)
         THEN i + 3 ELSE i
RECURSIVE FactorsMore(_, _, _)
FactorsMore(s, i, acc) ==
    LET f == FilterFactor(s, Ws(s, JointEnd(s, Ws(s, i))))
    IN IF Ok(f) THEN FactorsMore(s, f.p, Append(acc, f.x)) ELSE R(i, N("seq", "", acc))
FilterTerm(s, i) ==
    LET f == FilterFactor(s, i)
    IN IF ~Ok(f) THEN Fail
       ELSE LET m == FactorsMore(s, f.p, <<f.x>>) IN R(m.p, Combine(m.x.c, "AND"))
RECURSIVE TermsMore(_, _, _)
TermsMore(s, i, acc) ==
    LET a == Ws(s, i)
        isOr == StartsAt(s, a, "OR") \/ StartsAt(s, a, "or")
        t == IF isOr THEN FilterTerm(s, Ws(s, a + 2)) ELSE Fail
    IN IF Ok(t) THEN TermsMore(s, t.p, Append(acc, t.x)) ELSE R(i, N("seq", "", acc))
FilterExpr(s, i) ==
    LET f == FilterTerm(s, i)
    IN IF ~Ok(f) THEN Fail
       ELSE LET m == TermsMore(s, f.p, <<f.x>>) IN R(m.p, Combine(m.x.c, "OR"))

\* { filter }: value none if absent or empty
Braces(s, i) ==
    IF ~At(s, i, "{") THEN R(i, None)
    ELSE LET f == FilterExpr(s, Ws(s, i + 1))
             e == IF Ok(f) THEN Ws(s, f.p) ELSE i + 1
         IN IF At(s, e, "}") THEN R(e + 1, IF Ok(f) THEN f.x ELSE None) ELSE R(i, None)

\* by a / by (a, b): value none if absent, else a list of columns
GbName(s, i) == LET e == Run(s, i, TagChars) IN IF e = i THEN Fail ELSE R(e, ColNode(SubSeq(s, i, e - 1)))
RECURSIVE GbMore(_, _, _)
GbMore(s, i, acc) ==
    LET a == Ws(s, i)
        g == IF At(s, a, ",") THEN GbName(s, Ws(s, a + 1)) ELSE Fail
    IN IF Ok(g) THEN GbMore(s, g.p, Append(acc, g.x)) ELSE R(i, N("seq", "", acc))
GroupBy(s, i) ==
    LET a == Ws(s, i)
        b == Ws(s, a + 2)
        one == GbName(s, b)
        first == IF At(s, b, "(") THEN GbName(s, Ws(s, b + 1)) ELSE Fail
        more == IF Ok(first) THEN GbMore(s, first.p, <<first.x>>) ELSE Fail
        e == IF Ok(more) THEN Ws(s, more.p) ELSE 0
        cols(seq) == IF AnyBad(seq) THEN Bad ELSE ListN(seq)
    IN IF ~StartsAt(s, a, "by") THEN R(i, None)
       ELSE IF Ok(one) THEN R(one.p, cols(<<one.x>>))
       ELSE IF Ok(more) /\ At(s, e, ")") THEN R(e + 1, cols(more.x.c))
       ELSE R(i, None)

\* New filters and group bys go ahead of the ones the target has
ListItems(n) == IF n.k = "list" THEN n.c ELSE <<>>
AddFilter(t, f) == IF IsNone(f) THEN t ELSE IF IsBad(t) \/ IsBad(f) THEN Bad
                   ELSE SetField(t, 4, ListN(<<f>> \o ListItems(t.c[4])))
AddGroup(t, g) == IF IsNone(g) THEN t ELSE IF IsBad(t) \/ IsBad(g) THEN Bad
                  ELSE SetField(t, 5, ListN(g.c \o ListItems(t.c[5])))

------------------------------------------------------------------------------
(* Expressions *)
\* metric {filter} by group: a timeseries that still needs its aggregate
InnerFilter(s, i) ==
    LET m == MetricP(s, i)
    IN IF ~Ok(m) THEN Fail
       ELSE LET b == Braces(s, m.p)
                g == GroupBy(s, b.p)
                t == TsN(m.x, Placeholder, None, None, None)
            IN R(g.p, AddGroup(AddFilter(t, b.x), g.x))

ParamExpr(s, i) ==
    LET n == Number(s, i)  q == Quoted(s, i)
    IN IF Ok(n) THEN n ELSE IF Ok(q) THEN q ELSE Unquoted(s, i)
RECURSIVE ParamList(_, _, _)
ParamList(s, i, acc) ==
    LET p == ParamExpr(s, i)
    IN IF ~Ok(p) THEN Fail          \* a trailing comma leaves no last parameter
       ELSE LET a == Ws(s, p.p)
            IN IF At(s, a, ",")
               THEN LET rest == ParamList(s, Ws(s, a + 1), Append(acc, p.x))
                    IN IF Ok(rest) THEN rest ELSE Fail
               ELSE R(p.p, ListN(Append(acc, p.x)))
\* ( params ): the list, possibly empty
ParamParens(s, i) ==
    IF ~At(s, i, "(") THEN Fail
    ELSE LET a == Ws(s, i + 1)
             l == ParamList(s, a, <<>>)
             e == IF Ok(l) THEN Ws(s, l.p) ELSE Ws(s, a)
         IN IF At(s, e, ")") THEN R(e + 1, IF Ok(l) THEN l.x ELSE ListN(<<>>)) ELSE Fail

RECURSIVE Expression(_, _)
RECURSIVE ArgsMore(_, _, _)
ArgsMore(s, i, acc) ==
    LET a == Ws(s, i)
        e == IF At(s, a, ",") THEN Expression(s, Ws(s, a + 1)) ELSE Fail
    IN IF Ok(e) THEN ArgsMore(s, e.p, Append(acc, e.x)) ELSE R(i, N("seq", "", acc))
\* ( expr, expr, ... )
ArgParens(s, i) ==
    IF ~At(s, i, "(") THEN Fail
    ELSE LET f == Expression(s, Ws(s, i + 1))
         IN IF ~Ok(f) THEN Fail
            ELSE LET m == ArgsMore(s, Ws(s, f.p), <<f.x>>)
                 IN IF At(s, m.p, ")") THEN R(m.p + 1, m.x) ELSE Fail
InnerParens(s, i) ==
    IF ~At(s, i, "(") THEN Fail
    ELSE LET f == InnerFilter(s, Ws(s, i + 1))
         IN IF Ok(f) /\ At(s, Ws(s, f.p), ")") THEN R(Ws(s, f.p) + 1, f.x) ELSE Fail

Bare(t) == t.k = "ts" /\ t.c[2].v = Placeholder
SetAgg(t, name, params) == IF IsBad(t) THEN Bad ELSE SetField(SetField(t, 2, Str(name)), 3, params)
FunctionP(s, i) ==
    LET e == Run(s, i, AlnumU)
        name == SubSeq(s, i, e - 1)
        ps == IF e > i THEN ParamParens(s, e) ELSE Fail
        ca == IF Ok(ps) THEN InnerParens(s, ps.p) ELSE Fail
        cf == IF Ok(ps) /\ ~Ok(ca) THEN ArgParens(s, ps.p) ELSE Fail
        ag == IF e > i /\ ~Ok(ca) /\ ~Ok(cf) THEN InnerParens(s, e) ELSE Fail
        af == IF e > i /\ ~Ok(ca) /\ ~Ok(cf) /\ ~Ok(ag) THEN ArgParens(s, e) ELSE Fail
        r == IF Ok(ca) THEN R(ca.p, SetAgg(ca.x, name, ps.x))
             ELSE IF Ok(cf)
             THEN R(cf.p, IF AnyBad(cf.x.c) THEN Bad
                          ELSE IF Bare(cf.x.c[1]) THEN (IF Len(cf.x.c) > 1 THEN Bad ELSE SetAgg(cf.x.c[1], name, ps.x))
                          ELSE FormulaN(name, cf.x.c, ps.x, None, None))
             ELSE IF Ok(ag) THEN R(ag.p, SetAgg(ag.x, name, None))
             ELSE IF Ok(af)
             THEN R(af.p, IF AnyBad(af.x.c) \/ Bare(af.x.c[1]) THEN Bad
                          ELSE FormulaN(name, af.x.c, None, None, None))
             ELSE Fail
    IN IF ~Ok(r) THEN Fail
       ELSE LET g == GroupBy(s, r.p) IN R(g.p, AddGroup(r.x, g.x))

Nested(s, i) ==
    IF ~At(s, i, "(") THEN Fail
    ELSE LET e == Expression(s, Ws(s, i + 1))
         IN IF Ok(e) /\ At(s, Ws(s, e.p), ")")
            THEN R(Ws(s, e.p) + 1, IF e.x.k \in {"ts", "formula"} THEN e.x ELSE Bad) ELSE Fail
Target(s, i) ==
    LET v == VariableEnd(s, i)
        n == IF v > 0 THEN Fail ELSE Nested(s, i)
        f == IF v > 0 \/ Ok(n) THEN Fail ELSE FunctionP(s, i)
        m == IF v > 0 \/ Ok(n) \/ Ok(f) THEN Fail ELSE MetricP(s, i)
    IN IF v > 0 THEN R(v, Bad)
       ELSE IF Ok(n) THEN n
       ELSE IF Ok(f) THEN f
       ELSE IF Ok(m) THEN R(m.p, TsN(m.x, Placeholder, None, None, None))
       ELSE Fail
FilterP(s, i) ==
    LET t == Target(s, i)
    IN IF ~Ok(t) THEN Fail
       ELSE LET b == Braces(s, t.p)
                g == GroupBy(s, b.p)
            IN R(g.p, AddGroup(AddFilter(t.x, b.x), g.x))
Coefficient(s, i) ==
    LET n == Number(s, i)  q == Quoted(s, i)
    IN IF Ok(n) THEN n ELSE IF Ok(q) THEN q ELSE FilterP(s, i)
Unary(s, i) ==
    LET neg == At(s, i, "-")
        c == Coefficient(s, IF neg THEN i + 1 ELSE i)
    IN IF ~Ok(c) THEN Fail
       ELSE IF ~neg THEN c
       ELSE R(c.p, CASE c.x.k = "float" -> NegateFloat(c.x)
                     [] c.x.k \in {"ts", "formula"} -> FormulaN("negate", <<c.x>>, None, None, None)
                     [] OTHER -> Bad)
Operator == ("+" :> "plus") @@ ("-" :> "minus") @@ ("*" :> "multiply") @@ ("/" :> "divide")
Apply2(op, l, r) == IF IsBad(l) \/ IsBad(r) THEN Bad ELSE FormulaN(Operator[op], <<l, r>>, None, None, None)
RECURSIVE UnaryMore(_, _, _)
UnaryMore(s, i, left) ==
    LET a == Ws(s, i)
        u == IF At(s, a, "*") \/ At(s, a, "/") THEN Unary(s, Ws(s, a + 1)) ELSE Fail
    IN IF Ok(u) THEN UnaryMore(s, u.p, Apply2(Ch(s, a), left, u.x)) ELSE R(i, left)
Term(s, i) == LET u == Unary(s, i) IN IF Ok(u) THEN UnaryMore(s, u.p, u.x) ELSE Fail
RECURSIVE TermMore(_, _, _)
TermMore(s, i, left) ==
    LET a == Ws(s, i)
        t == IF At(s, a, "+") \/ At(s, a, "-") THEN Term(s, Ws(s, a + 1)) ELSE Fail
    IN IF Ok(t) THEN TermMore(s, t.p, Apply2(Ch(s, a), left, t.x)) ELSE R(i, left)
Expression(s, i) == LET t == Term(s, i) IN IF Ok(t) THEN TermMore(s, t.p, t.x) ELSE Fail

\* The meaning of an MQL string: a Timeseries or Formula, or Bad (rejected)
ParseMql(text) ==
    LET s == Strip(text, Space)
        e == Expression(s, 1)
    IN IF Ok(e) /\ e.p = Len(s) + 1 /\ e.x.k \in {"ts", "formula"} THEN e.x ELSE Bad
==============================================================================
