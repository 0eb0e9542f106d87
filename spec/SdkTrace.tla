------------------------------ MODULE SdkTrace ------------------------------
(***************************************************************************)
(* Validates recorded executions of the SDK.  A session is a sequence of   *)
(* events, each one call of the real code:                                 *)
(*   op, a    the operation and its arguments; a node [k |-> "ref", v |-> i]*)
(*            inside an argument stands for the i-th object of the session *)
(*   ok, r, e whether it returned, the result, and the class names of the   *)
(*            exception it raised                                           *)
(*   asp      "full", or "accept" if only the outcome matters               *)
(*   keep     whether the result becomes an object of the session           *)
(*   chg      the objects whose state is no longer what it was before       *)
(* Every event is a Call (or Mutate or Input) step of Sdk.  The verdict on an event  *)
(* is total: a rejected event is reported, and the session goes on from the *)
(* state the code is in.                                                    *)
(***************************************************************************)
EXTENDS Sdk

CONSTANT TraceFile
Sessions == ndJsonDeserialize(TraceFile)
VARIABLES sid, pos
tvars == <<heap, last, sid, pos>>

NoCalls(h) == {}

Args(ev) == IF heap = <<>> THEN ev.a ELSE [i \in 1..Len(ev.a) |-> Deref(ev.a[i], heap)]

Verdict(ev, a) ==
    IF ev.op \in {"mutate", "input"} THEN "ok"       \* done by the program itself
    ELSE IF ev.chg # <<>> THEN "changed"
    ELSE IF ~OpDefined(ev.op, a) THEN (IF PrintT("VACUOUS") THEN "ok" ELSE "ok")
    ELSE LET errs == OpErrs(ev.op, a)
         IN IF errs = {}
            THEN IF ~ev.ok THEN "raised"
                 ELSE IF ev.asp = "accept" THEN "ok"
                 ELSE IF OpAllows(ev.op, a, ev.r) THEN "ok" ELSE "result"
            ELSE IF ev.ok THEN "accepted"
                 ELSE IF \E i \in 1..Len(ev.e) : ev.e[i] \in errs THEN "ok" ELSE "class"

Report(ev, a, v) ==
    PrintT("REJECT " \o ToJson([s |-> sid, p |-> pos + 1, why |-> v,
        errs |-> IF v \in {"raised", "result", "changed"} THEN {} ELSE OpErrs(ev.op, a),
        want |-> IF v = "result" THEN OpExample(ev.op, a) ELSE None]))

RECURSIVE ApplyChanges(_, _)
ApplyChanges(h, chg) == IF chg = <<>> THEN h ELSE ApplyChanges([h EXCEPT ![Head(chg).h] = Head(chg).n], Tail(chg))

TraceInit == sid \in 1..Len(Sessions) /\ pos = 0 /\ heap = <<>> /\ last = <<>>
TraceNext ==
    /\ pos < Len(Sessions[sid].ev)
    /\ LET ev == Sessions[sid].ev[pos + 1]
           a == Args(ev)
           v == Verdict(ev, a)
           h1 == ApplyChanges(heap, ev.chg)
       IN /\ IF v = "ok" THEN TRUE ELSE Report(ev, a, v)
          /\ heap' = IF ev.keep /\ ev.ok THEN Append(h1, ev.r) ELSE h1
    /\ pos' = pos + 1
    /\ UNCHANGED <<sid, last>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==============================================================================
