-------------------------------- MODULE McHeap --------------------------------
(***************************************************************************)
(* Histories.  Here the heap is a store: an object may hold references to   *)
(* other objects of the heap (lists a program handed over, shared metrics,  *)
(* inner queries), so that several objects share parts and a change the     *)
(* program makes to a list of its own shows in all of them.  TLC makes every *)
(* history of a scenario up to a length; the harness replays each one into  *)
(* the code, with real sharing.                                             *)
(***************************************************************************)
EXTENDS Sdk

CONSTANTS Prop, Deep
VARIABLES scen, hist
hvars == <<heap, last, scen, hist>>

NoSteps(h) == {}
Ref(i) == N("ref", ToString(i), <<>>)
S(x) == Str(x)
L(x) == ListN(x)
RECURSIVE Value(_, _)
Value(n, h) == IF n.k = "ref" THEN Value(h[Int10(n.v)], h)
               ELSE IF Len(n.c) = 0 THEN n ELSE [n EXCEPT !.c = [i \in 1..Len(n.c) |-> Value(n.c[i], h)]]
OneN(k, x) == N(k, "", <<x>>)
E0 == EntityN("events", None, None, None)
Count == FnA("count", <<>>, "cnt")
Qr(m, sel, gb, wh, tot) == N("query", "", <<m, sel, gb, None, wh, None, None, None, None, None, None, tot>>)
A1 == CondN(Col("a"), "EQ", IntN(1))
A2 == CondN(Col("a"), "EQ", IntN(2))
B1 == CondN(Col("b"), "IN", L(<<IntN(1)>>))
Dt0 == N("dt", "", <<IntN(2024), IntN(1), IntN(1), IntN(0), IntN(0), IntN(0), IntN(0), None>>)
Dt1 == N("dt", "", <<IntN(2024), IntN(1), IntN(2), IntN(0), IntN(0), IntN(0), IntN(0), None>>)
R0 == N("rollup", "", <<IntN(60), None, None, IntN(60)>>)
S0 == N("scope", "", <<L(<<IntN(1)>>), L(<<IntN(11)>>), None>>)
FS1 == CondN(Col("x"), "EQ", S("1"))
FS2 == CondN(Col("x"), "EQ", S("2"))
OrF == OrN(<<FS1, FS2>>)
Mq(x, sc) == N("mq", "", <<x, Dt0, Dt1, R0, sc, None, None, None, DictN(<<>>)>>)
Rq(q, f, t) == N("request", "", <<S("ds"), S("app"), q, f, S("p"), t>>)

\* A scenario: the objects at the start, the calls on objects of a kind, and what the program does to its own lists
\* calls: <<kind, op, further arguments>>, made on every object of that kind; muts: <<index, new content>>
Scenario(g) ==
    CASE g = "query" ->
        [ins |-> <<L(<<Count, Col("a")>>), L(<<OrN(<<A1, A2>>), B1>>), Qr(E0, Ref(1), None, Ref(2), None), Qr(Ref(3), L(<<Col("cnt")>>), None, None, None)>>,
         calls |-> {<<"query", op, <<>> >> : op \in {"serialize", "print", "validate"}}
                   \cup {<<"query", "set", <<S("select"), Ref(1)>> >>, <<"query", "set", <<S("where"), Ref(2)>> >>, <<"query", "set", <<S("limit"), IntN(5)>> >>, <<"query", "set", <<S("groupby"), L(<<Col("a")>>)>> >>,
                         <<"query", "set", <<S("match"), Ref(3)>> >>, <<"query", "set", <<S("limit"), IntN(0)>> >>, <<"query", "set", <<S("totals"), True>> >>},
         muts |-> {}]
      [] g = "rewrite" ->     \* what serialization rewrites, next to what it does not
        [ins |-> <<L(<<A1, A2>>), L(<<B1, N("or", "", <<Ref(1)>>), A1, N("and", "", <<Ref(1)>>)>>), L(<<IntN(1), Col("a")>>), L(<<N("fn", "", <<S("f"), Ref(3), None>>), Count>>), Qr(E0, Ref(4), None, Ref(2), None), SetField(Qr(Ref(5), L(<<Col("cnt")>>), None, None, None), 6, L(<<N("or", "", <<Ref(1)>>)>>))>>,
         calls |-> {<<"query", op, <<>> >> : op \in {"serialize", "print", "validate", "str"}} \cup {<<"query", "set", <<S("where"), L(<<N("or", "", <<Ref(1)>>), B1, B1>>)>> >>, <<"query", "set", <<S("having"), Ref(2)>> >>, <<"query", "set", <<S("select"), Ref(4)>> >>},
         muts |-> IF Prop = "C04" THEN {} ELSE {<<1, L(<<A1>>)>>, <<1, L(<<A1, B1>>)>>, <<1, L(<<A2, A1, A2>>)>>, <<2, L(<<>>)>>, <<3, L(<<>>)>>, <<3, L(<<Col("b"), Col("b"), IntN(1)>>)>>, <<4, L(<<>>)>>}]
      [] g = "metrics" ->
        [ins |-> <<L(<<OrF>>), MetricN(S("a.b"), None), TsN(Ref(2), "p", L(<<IntN(1)>>), Ref(1), None), L(<<Ref(3), IntN(1)>>), N("formula", "", <<S("plus"), Ref(4), None, Ref(1), None>>)>>,
         calls |-> {<<"ts", "set", <<S("aggregate"), S("p"), None>> >>, <<"ts", "set", <<S("aggregate"), S("max"), L(<<IntN(2)>>)>> >>, <<"ts", "set", <<S("aggregate"), S("p"), L(<<IntN(1)>>)>> >>, <<"ts", "set", <<S("filters"), Ref(1)>> >>, <<"ts", "set", <<S("filters"), None>> >>, <<"ts", "set", <<S("groupby"), L(<<Col("g")>>)>> >>,
                    <<"ts", "set", <<S("metric"), Ref(2)>> >>, <<"ts", "set", <<S("metric"), S("x")>> >>, <<"formula", "set", <<S("parameters"), Ref(4)>> >>, <<"formula", "set", <<S("groupby"), L(<<Col("g")>>)>> >>, <<"formula", "set", <<S("filters"), L(<<FS2>>)>> >>, <<"formula", "validate", <<>> >>,
                    <<"metric", "set", <<S("id"), IntN(7)>> >>, <<"metric", "set", <<S("mri"), S("d:t/x@s")>> >>, <<"metric", "set", <<S("public_name"), S("z")>> >>},
         muts |-> {}]
      [] g = "mq" ->
        [ins |-> <<L(<<OrF>>), TsN(MetricN(S("a.b"), None), "sum", None, Ref(1), None), L(<<IntN(1), IntN(2)>>), N("scope", "", <<Ref(3), L(<<IntN(11)>>), None>>), Mq(Ref(2), Ref(4)), Rq(Ref(5), None, DictN(<<>>))>>,
         calls |-> {<<"mq", op, <<>> >> : op \in {"serialize", "print", "validate", "str"}} \cup {<<"request", op, <<>> >> : op \in {"to_dict", "print"}}
                   \cup {<<"mq", "set", <<S("limit"), IntN(5)>> >>, <<"mq", "set", <<S("query"), S("sum(a.b){x:[1,2]}")>> >>, <<"mq", "set", <<S("scope"), Ref(4)>> >>, <<"mq", "set", <<S("start"), None>> >>, <<"scope", "set", <<S("use_case_id"), S("u")>> >>},
         muts |-> {<<1, L(<<FS1, OrF>>)>>, <<1, L(<<>>)>>, <<3, L(<<IntN(9)>>)>>}]
      [] g = "invalid" ->     \* becomes invalid and valid again
        [ins |-> <<L(<<Count>>), L(<<Col("a")>>), Qr(E0, Ref(1), Ref(2), None, OneN("totals", True)), L(<<Col("cnt")>>), Qr(Ref(3), Ref(4), None, None, None), Rq(Ref(5), None, DictN(<<>>))>>,
         calls |-> {<<"query", op, <<>> >> : op \in {"serialize", "print", "validate", "str"}} \cup {<<"request", "to_dict", <<>> >>},
         muts |-> {<<1, L(<<>>)>>, <<1, L(<<Count>>)>>, <<1, L(<<Col("b")>>)>>, <<2, L(<<>>)>>, <<2, L(<<Col("a"), Col("b")>>)>>, <<4, L(<<>>)>>, <<4, L(<<Col("cnt"), Count>>)>>}]
      [] g = "formula" ->
        [ins |-> <<L(<<Col("g")>>), TsN(MetricN(S("a.b"), None), "sum", None, None, Ref(1)), L(<<Ref(2), IntN(1)>>), N("formula", "", <<S("plus"), Ref(3), None, None, Ref(1)>>), L(<<Ref(4), IntN(2)>>), N("formula", "", <<S("minus"), Ref(5), None, None, None>>), Mq(Ref(6), S0)>>,
         calls |-> {<<"mq", op, <<>> >> : op \in {"serialize", "validate", "print"}} \cup {<<"formula", "validate", <<>> >>},
         muts |-> {<<1, L(<<>>)>>, <<1, L(<<Col("h")>>)>>, <<3, L(<<IntN(1)>>)>>, <<3, L(<<>>)>>, <<3, L(<<Ref(2), Ref(2)>>)>>, <<5, L(<<IntN(2), S("x")>>)>>, <<5, L(<<Ref(2), Ref(4)>>)>>}]
      [] g = "delete" ->
        [ins |-> <<L(<<IntN(3), IntN(1), IntN(1)>>), L(<<S("y"), S("a"), S("y")>>), DictN(<<Kv("a", Ref(1)), Kv("b", Ref(2))>>), N("dq", "", <<S("st"), Ref(3)>>), Rq(Ref(4), None, DictN(<<>>))>>,
         calls |-> {<<"dq", op, <<>> >> : op \in {"serialize", "validate"}} \cup {<<"request", op, <<>> >> : op \in {"to_dict", "json", "print", "validate"}},
         muts |-> {<<1, L(<<>>)>>, <<1, L(<<IntN(1), S("x")>>)>>, <<2, L(<<>>)>>, <<2, L(<<S("z"), S("y")>>)>>, <<3, DictN(<<>>)>>, <<3, DictN(<<Kv("a", Ref(1)), Kv("c", L(<<>>))>>)>>, <<3, DictN(<<Kv("c", L(<<IntN(1)>>))>>)>>}]
      [] g = "shelf" ->       \* lists in no order and with repetitions, in every kind of query
        [ins |-> <<L(<<IntN(3), IntN(1), IntN(2), IntN(1)>>), L(<<S("y"), S("a"), S("y")>>), DictN(<<Kv("a", Ref(1)), Kv("b", Ref(2))>>), N("dq", "", <<S("st"), Ref(3)>>), Rq(Ref(4), N("flags", "", <<None, True, None, None, False, None>>), DictN(<<Kv("org", IntN(1)), Kv("x", S("y"))>>)),
                   L(<<FS2, FS1, FS2, OrF>>), L(<<Col("h"), Col("g"), Col("h")>>), TsN(MetricN(S("a.b"), S("d:c/n@u")), "q", L(<<IntN(3), IntN(1)>>), Ref(6), Ref(7)), L(<<Ref(8), IntN(1)>>), N("formula", "", <<S("plus"), Ref(9), None, Ref(6), None>>), N("scope", "", <<Ref(1), L(<<IntN(11), IntN(2), IntN(11)>>), None>>), Mq(Ref(10), Ref(11)), Rq(Ref(12), None, DictN(<<>>))>>,
         calls |-> {<<"dq", op, <<>> >> : op \in {"serialize", "validate"}} \cup {<<"request", op, <<>> >> : op \in {"to_dict", "json", "print", "validate"}} \cup {<<"mq", op, <<>> >> : op \in {"serialize", "validate"}}
                   \cup {<<"formula", "set", <<S("groupby"), Ref(7)>> >>, <<"ts", "set", <<S("filters"), Ref(6)>> >>, <<"mq", "set", <<S("scope"), Ref(11)>> >>},
         muts |-> {}]
      [] g = "request" ->
        [ins |-> <<DictN(<<Kv("org", IntN(1))>>), N("flags", "", <<None, True, None, None, False, None>>), L(<<OrN(<<A1, A2>>)>>), Qr(E0, L(<<Count>>), None, Ref(3), None), Rq(Ref(4), Ref(2), Ref(1)), Rq(Ref(4), None, Ref(1))>>,
         calls |-> {<<"request", op, <<>> >> : op \in {"to_dict", "json", "json_mql", "print", "str", "validate"}} \cup {<<"query", "serialize", <<>> >>, <<"flags", "validate", <<>> >>},
         muts |-> {<<1, DictN(<<>>)>>, <<1, DictN(<<Kv("org", IntN(2)), Kv("x", S("y"))>>)>>, <<3, L(<<A1>>)>>} \cup {<<2, N("flags", "", f)>> : f \in {<<None, None, None, None, None, None>>, <<True, False, None, True, None, None>>, <<None, IntN(1), None, None, None, None>>}}
                  \cup {<<6, r>> : r \in {Rq(Ref(4), Ref(2), DictN(<<>>)), N("request", "", <<S("d s"), S("app"), Ref(4), None, S("p"), Ref(1)>>), N("request", "", <<S("ds"), S("app"), Ref(4), None, S(""), Ref(1)>>), N("request", "", <<S("ds2"), S("app2"), Ref(4), Ref(2), S("q"), Ref(1)>>)}}]
      [] g = "legacy" ->
        [ins |-> <<L(<<S("a"), L(<<S("f"), L(<<S("b")>>), S("`al`")>>)>>), L(<<L(<<S("-f"), L(<<S("b")>>)>>), S("-a")>>),
                   DictN(<<Kv("conditions", L(<<L(<<L(<<S("a"), S("="), IntN(1)>>), L(<<S("b"), S("="), S("'x'")>>)>>)>>)), Kv("groupby", S("a")), Kv("orderby", Ref(2)), Kv("project", L(<<IntN(2), IntN(1)>>)), Kv("selected_columns", Ref(1)), Kv("tenant_ids", DictN(<<Kv("o", IntN(1))>>))>>)>>,
         calls |-> {<<"dict", "legacy", <<S("events")>> >>, <<"dict", "legacy", <<S("sessions")>> >>, <<"request", "to_dict", <<>> >>, <<"request", "print", <<>> >>, <<"request", "json", <<>> >>},
         muts |-> {<<1, L(<<S("c")>>)>>, <<1, L(<<>>)>>, <<2, L(<<S("-c")>>)>>, <<3, DictN(<<Kv("selected_columns", Ref(1)), Kv("limit", IntN(3))>>)>>}]
Names == CASE Prop = "C04" -> {"query", "metrics", "mq", "rewrite", "shelf"}
           [] Prop = "C05" -> {"invalid", "rewrite"}
           [] Prop = "C12" -> {"mq"}
           [] Prop = "C13" -> {"formula"}
           [] Prop = "C14" -> {"request"}
           [] Prop = "C15" -> {"legacy"}
           [] Prop = "C17" -> {"delete"}
           [] Prop = "C16" -> {"invalid", "mq", "delete", "legacy", "rewrite"}
Depth == IF Deep /\ Prop # "C04" THEN 4 ELSE 3
Sc == Scenario(scen)
NIns == Len(Sc.ins)

\* Objects are made by the program; then it calls, or changes its lists
HInit == /\ heap = <<>> /\ last = <<>> /\ scen \in Names /\ hist = <<>>
Make == /\ heap = <<>>
        /\ heap' = Sc.ins
        /\ UNCHANGED <<last, scen, hist>>
ArgV(a) == [i \in 1..Len(a) |-> Value(a[i], heap)]
DoCall == \E c \in Sc.calls : \E i \in 1..Len(heap) :
             LET a == <<Ref(i)>> \o c[3]
                 v == ArgV(a)
                 op == c[2]
                 good == OpErrs(op, v) = {}
             IN /\ heap[i].k = c[1]
                \* (a query is not put inside itself)
                /\ ~(op = "set" /\ c[3][1].v = "match" /\ i <= 3)
                /\ last' = <<op, a>>
                /\ heap' = IF ~good \/ op \notin {"set", "legacy"} THEN heap
                           ELSE Append(heap, IF op = "set" THEN SetResult(<<heap[i]>> \o c[3]) ELSE LegacyRequest(v[1], v[2].v))
DoMutate == \E m \in Sc.muts : /\ heap[m[1]] # m[2]
                               /\ heap' = [heap EXCEPT ![m[1]] = m[2]]
                               /\ last' = <<"mutate", <<Ref(m[1]), m[2]>> >>
\* a history ends with a call
Step == /\ heap # <<>> /\ Len(hist) < Depth
        /\ DoCall \/ (DoMutate /\ Len(hist) < Depth - 1)
        /\ hist' = Append(hist, last')
        /\ UNCHANGED scen
        /\ (Len(hist') = Depth => PrintT("HIST " \o ToJson([ins |-> Sc.ins, ev |-> hist'])))
HNext == Make \/ Step
HSpec == HInit /\ [][HNext]_hvars
\* A call changes no object that is there: neither the cells nor what they stand for
IsCall == heap # <<>> /\ last' # <<>> /\ last'[1] # "mutate"
HPersistent == [][IsCall => \A i \in 1..Len(heap) : heap'[i] = heap[i] /\ Value(heap'[i], heap') = Value(heap[i], heap)]_hvars
\* The outcome of a call is that of the same call on copies: sharing does not show
HFresh == [][(IsCall /\ Len(heap') > Len(heap) /\ last'[1] = "set") => Value(heap'[Len(heap')], heap') = SetResult([i \in 1..Len(last'[2]) |-> Value(last'[2][i], heap)])]_hvars
==============================================================================
