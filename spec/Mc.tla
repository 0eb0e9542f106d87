--------------------------------- MODULE Mc ---------------------------------
(***************************************************************************)
(* Common part of the exhaustive models.  A model names a finite universe  *)
(* of calls <<op, args, aspect>>; TLC makes every one of them a step of the *)
(* machine of Sdk, checks the laws of the model on it, and writes the       *)
(* universe to OutFile, from where the harness replays every call into the  *)
(* real code (the recorded outcomes are then validated by SdkTrace).        *)
(***************************************************************************)
EXTENDS Sdk

CONSTANTS OutFile, Prop, Deep

C(op, a) == <<op, a, "full">>
Acc(op, a) == <<op, a, "accept">>
NoSteps(h) == {}
SX == INSTANCE SequencesExt
SetToSeq(S) == SX!SetToSeq(S)

\* all sequences over S of length lo..hi
Seqs(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Cat(Tail(ss))
Strings(S, lo, hi) == {Cat(s) : s \in Seqs(S, lo, hi)}
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE IF n = 1 THEN s
             ELSE IF n % 2 = 0 THEN LET h == Rep(s, n \div 2) IN h \o h ELSE s \o Rep(s, n - 1)

\* Building blocks
Cfn(f, ini, ps, al) == N("cfn", "", <<Str(f), ini, ps, al>>)
FnT(f, ps, al) == N("fn", "", <<Str(f), ps, al>>)
LamN(ids, body) == N("lambda", "", <<ListN(ids), body>>)
IdN(x) == N("ident", "", <<Str(x)>>)
AliasedN(e, a) == N("aliased", "", <<e, a>>)
OrderN(e, d) == N("orderby", "", <<e, DirN(d)>>)
LimitByN(cs, n) == N("limitby", "", <<ListN(cs), IntN(n)>>)
OneN(k, x) == N(k, "", <<x>>)
StorageN(name, sample, dm) == N("storage", "", <<Str(name), sample, dm>>)
Ent(name, alias) == EntityN(name, Str(alias), None, None)
E0 == EntityN("events", None, None, None)
Count == FnA("count", <<>>, "cnt")
\* a query on m that selects sel
Qs(m, sel) == N("query", "", <<m, ListN(sel), None, None, None, None, None, None, None, None, None, None>>)
Q0(m) == Qs(m, <<Count>>)
QI == [match |-> 1, select |-> 2, groupby |-> 3, array_join |-> 4, where |-> 5, having |-> 6, orderby |-> 7,
       limitby |-> 8, limit |-> 9, offset |-> 10, granularity |-> 11, totals |-> 12]
Q1(m, f, x) == SetField(Q0(m), QI[f], x)
With(q, f, x) == SetField(q, QI[f], x)
Where(q, cs) == With(q, "where", ListN(cs))
DtN(y, mo, d, h, mi, s, us, off) == N("dt", "", <<IntN(y), IntN(mo), IntN(d), IntN(h), IntN(mi), IntN(s), IntN(us), off>>)
DateN(y, m, d) == N("date", "", <<IntN(y), IntN(m), IntN(d)>>)
Bytes(s) == N("bytes", s, <<>>)
Obj == N("obj", "", <<>>)
------------------------------------------------------------------------------
(* The universe is split in groups 1..Groups; a behaviour picks a group and makes one call of it. *)
CONSTANTS Groups, Cases(_)
McInputs(h) == IF h = <<>> THEN {IntN(g) : g \in 1..Groups} ELSE {}
McCalls(h) == IF h = <<>> THEN {} ELSE Cases(I(h[1]))
Emit == ndJsonSerialize(OutFile \o heap[1].v, SetToSeq(McCalls(heap)))
McNext == \/ heap = <<>> /\ Input
          \/ last # <<>> /\ last[1] = "input" /\ Emit /\ Call
McSpec == Init /\ [][McNext]_vars
G == I(heap[1])
Done == last # <<>> /\ last[1] # "input"
==============================================================================
