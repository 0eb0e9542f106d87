-------------------------------- MODULE Sdk --------------------------------
(***************************************************************************)
(* The SDK as a state machine.  The state is the heap of objects a program *)
(* has made; a call of the SDK is an operation op with arguments a, whose  *)
(* outcome is a function of the arguments alone:                           *)
(*     OpErrs(op, a)       the exception classes it may raise; if empty,   *)
(*                         it must succeed, otherwise it must raise        *)
(*     OpAllows(op, a, r)  whether r is a permitted result                 *)
(* A call may add one object to the heap and changes none.  The program    *)
(* itself may change the mutable parts of its own objects (Mutate).        *)
(***************************************************************************)
EXTENDS SdkLegacy

NewErrs(n) ==
    CASE n.k = "query" -> MatchErrs(n.c[1])
      [] n.k = "metric" -> MetricErrs(n)
      [] n.k = "ts" -> TsErrs(n)
      [] n.k = "rollup" -> RollupErrs(n)
      [] n.k = "scope" -> ScopeErrs(n)
      [] OTHER -> ExprErrs(n)

FieldsOf(k) == CASE k = "query" -> QFields
                 [] k = "mq" -> MqFields
                 [] k = "ts" -> TsFields
                 [] k = "formula" -> FormulaFields
                 [] k = "metric" -> MetricFields
                 [] k = "scope" -> ScopeFields

\* a = <<object, Str(field), value>> or <<ts, "aggregate", name, params>>
SetResult(a) ==
    LET n == a[1]  f == a[2].v
        i == FieldIndex(FieldsOf(n.k), f)
        x == CASE n.k = "query" -> SetterValue(f, a[3])
               [] n.k = "mq" -> MqSetterValue(f, a[3])
               [] OTHER -> a[3]
    IN IF n.k = "ts" /\ f = "aggregate" THEN SetField(SetField(n, 2, a[3]), 3, a[4]) ELSE SetField(n, i, x)
SetErrs(a) ==
    LET n == a[1]  f == a[2].v  x == a[3]
        direct == CASE n.k = "query" -> SetterErrs(f, x)
                    [] n.k = "mq" -> MqSetterErrs(f, x)
                    [] n.k = "ts" -> IF f = "aggregate" THEN TsSetAggErrs(x, a[4]) ELSE TsSetterErrs(f, x)
                    [] n.k = "formula" -> FormulaSetterErrs(f, x)
                    [] n.k = "metric" -> MetricSetterErrs(f, x)
                    [] n.k = "scope" -> If(x.k # "str", IEE)
    IN direct \cup (IF direct = {} THEN NewErrs(SetResult(a)) ELSE {})

ValidateErrs(n) ==
    CASE n.k \in {"query", "mq", "dq"} -> AnyQueryErrs(n)
      [] n.k = "request" -> RequestErrs(n)
      [] n.k = "flags" -> FlagErrs(n)
      [] n.k = "formula" -> FormulaErrs(n)
      [] OTHER -> NewErrs(n)

QuerySerErrs(q) == QueryErrs(q) \cup (IF QueryErrs(q) = {} THEN If(~Renders(q), "Exception") ELSE {})
SerializeErrs(n) ==
    CASE n.k = "query" -> QuerySerErrs(n)
      [] n.k = "mq" -> MqSerErrs(n)
      [] n.k = "dq" -> DqErrs(n)
      [] n.k = "request" -> RequestSerErrs(n)

\* JSON has no tuples
RECURSIVE Jsonify(_)
Jsonify(n) == N(IF n.k = "tuple" THEN "list" ELSE n.k, n.v, [i \in 1..Len(n.c) |-> Jsonify(n.c[i])])

\* Python's equality identifies 1, 1.0 and True, and a curried function without initializers with the function
RECURSIVE PyNorm(_)
PyNorm(n) ==
    CASE n.k = "bool" -> IntS(IntText(n))
      [] n.k = "float" /\ EndsWith(n.v, ".0") -> IntS(SubSeq(n.v, 1, Len(n.v) - 2))
      [] n.k = "cfn" /\ IsNone(FInit(n)) -> N("fn", "", <<PyNorm(n.c[1]), PyNorm(FParams(n)), PyNorm(FAlias(n))>>)
      [] OTHER -> N(n.k, n.v, [i \in 1..Len(n.c) |-> PyNorm(n.c[i])])

BoolN(b) == IF b THEN True ELSE False
SearchKinds == [Column |-> {"col"}, AliasedExpression |-> {"aliased"}, Function |-> {"fn"},
                CurriedFunction |-> {"cfn", "fn"}, Condition |-> {"cond"}]

\* Texts MQL can write and read back (see the known finding about backslashes)
RECURSIVE PlainNode(_)
PlainNode(n) == PlainText(n.v) /\ \A i \in 1..Len(n.c) : PlainNode(n.c[i])

\* Calls the properties say nothing about.  The constructor of Query does not look at its clauses: a query given an
\* expression of another clause's kind, or an empty value that is no list, is neither required to be accepted nor rejected.
ClauseKinds == [i \in 2..12 |-> CASE i \in {2, 3} -> SelectKinds [] i = 4 -> {"col"} [] i \in {5, 6} -> CondKinds
                                   [] i = 7 -> {"orderby"} [] i = 8 -> {"limitby"} [] i = 9 -> {"limit"}
                                   [] i = 10 -> {"offset"} [] i = 11 -> {"gran"} [] i = 12 -> {"totals"}]
RECURSIVE Misplaced(_)
Misplaced(q) ==
    LET listBad(i) == IF q.c[i].k \in SeqKinds
                      THEN \E j \in 1..Len(q.c[i].c) : (IsExpr(q.c[i].c[j]) /\ q.c[i].c[j].k \notin ClauseKinds[i])
                      ELSE (~IsNone(q.c[i]) /\ ~Truthy(q.c[i]))
        oneBad(i) == (IsExpr(q.c[i]) /\ q.c[i].k \notin ClauseKinds[i]) \/ (~IsNone(q.c[i]) /\ ~Truthy(q.c[i]))
    IN (q.c[1].k = "query" /\ Misplaced(q.c[1])) \/ (\E i \in 2..7 : listBad(i)) \/ (\E i \in 8..12 : oneBad(i))
RECURSIVE HasMisplaced(_)
HasMisplaced(n) ==
    \/ n.k = "query" /\ Misplaced(n)
    \/ n.k = "formula" /\ (n.c[2] = Str("") \/ n.c[2].k \in {"bytes", "badbytes"})    \* sequences, too, for Python
    \/ \E i \in 1..Len(n.c) : HasMisplaced(n.c[i])
\* Python's bytes are a sequence of integers
BytesAsList(n) == n.k \in FnKinds /\ (FParams(n).k \in {"bytes", "badbytes"} \/ FInit(n).k \in {"bytes", "badbytes"})

\* Known finding: the printer escapes backslashes and newlines, the parser does not unescape them.  An expression with
\* such a text reads back as exactly what the grammar makes of the escaped text, and as nothing else.
RECURSIVE Plained(_)
Plained(n) == N(n.k, MapChars(n.v, [ch \in {"\\", "\n"} |-> "b"]), [i \in 1..Len(n.c) |-> Plained(n.c[i])])
Escaped(x) == {ParseMql(t) : t \in MqlTexts(x)}
RoundtripErrs(x) == IF PlainNode(x) THEN {} ELSE If(\E p \in Escaped(x) : IsBad(p), "Exception")
RoundtripOk(x, r) == /\ r.k \in {"ts", "formula"}
                     /\ IF PlainNode(x) THEN Equivalent(r, x) ELSE \E p \in Escaped(x) : ~IsBad(p) /\ Equivalent(r, p)

RECURSIVE JsonOk(_)
JsonOk(n) == /\ n.k \in {"none", "bool", "int", "float", "str", "list", "tuple", "dict", "kv"}
             /\ \A i \in 1..Len(n.c) : JsonOk(n.c[i])
RequestJsonOk(r) == /\ r.c[6].k = "dict" => JsonOk(r.c[6])
                    /\ r.c[3].k = "mq" => JsonOk(r.c[3].c[9])
                    /\ r.c[3].k = "dq" => JsonOk(r.c[3].c[2])
\* JSON cannot hold every value, and what it cannot hold is not left out
HasJson(op, n) == CASE op \in {"json", "json_mql", "str", "print"} /\ n.k = "request" -> RequestJsonOk(n)
                    [] op \in {"str", "print"} /\ n.k = "mq" -> JsonOk(n.c[9])
                    [] OTHER -> TRUE
OpDefined(op, a) ==
    /\ \A i \in 1..Len(a) : ~HasMisplaced(a[i])
    /\ CASE op = "roundtrip" -> Expressible(Plained(a[1])) /\ ValidateErrs(a[1]) = {}
      [] op = "reparse" -> LET p == ParseMql(a[1].v) IN ~IsBad(p) /\ ValidateErrs(p) = {}
      \* str() of a metrics query does not validate it
      [] op = "str" /\ a[1].k = "mq" -> MqErrs(a[1]) = {}
      [] op = "new" /\ a[1].k \in FnKinds -> ~BytesAsList(a[1])
      [] OTHER -> TRUE

OpErrs(op, a) ==
    CASE op = "new" -> NewErrs(a[1])
      [] op = "set" -> SetErrs(a)
      [] op = "validate" -> ValidateErrs(a[1])
      [] op \in {"serialize", "str", "print", "to_dict", "json", "json_mql"} -> SerializeErrs(a[1]) \cup (IF SerializeErrs(a[1]) = {} THEN If(~HasJson(op, a[1]), "Exception") ELSE {})
      [] op = "required" -> RequiredErrs(a[1])
      [] op = "colparts" -> {}
      [] op = "parse" -> If(IsBad(ParseMql(a[1].v)), "Exception")
      [] op = "strictrt" -> {}
      [] op = "roundtrip" -> RoundtripErrs(a[1])
      [] op = "reparse" -> RoundtripErrs(ParseMql(a[1].v))
      [] op = "legacy" -> LegacyErrs(a[1], a[2].v)
      [] op \in {"find", "aggname", "isagg", "hascol"} -> {}

OpAllows(op, a, r) ==
    CASE op = "new" -> r = a[1]
      [] op = "set" -> r = SetResult(a)
      [] op = "validate" -> r = None
      [] op = "required" -> r = None
      [] op \in {"serialize", "str"} /\ a[1].k = "query" -> r.k = "str" /\ r.v \in SerializedTexts(a[1])
      [] op = "print" /\ a[1].k = "query" -> r = Str(PrintedText(a[1]))
      [] op = "serialize" /\ a[1].k = "mq" -> r \in MqSerialized(a[1])
      [] op \in {"print", "str"} /\ a[1].k = "mq" -> r = Jsonify(MqPrinted(a[1]))
      [] op = "serialize" /\ a[1].k = "dq" -> r = DqDict(a[1])
      [] op = "to_dict" -> r \in RequestDicts(a[1])
      [] op \in {"json", "json_mql", "str", "print"} /\ a[1].k = "request" -> r \in {Jsonify(d) : d \in RequestDicts(a[1])}
      [] op = "colparts" -> LET s == a[1].c[1].v
                            IN r = IF HasSub(s) THEN TupN(<<Str(Subscriptable(s)), Str(SubKey(s))>>) ELSE TupN(<<None, None>>)
      [] op = "parse" -> r = ParseMql(a[1].v)
      [] op = "strictrt" -> r.k \in {"ts", "formula"} /\ Equivalent(r, a[1])     \* without the known finding
      [] op = "roundtrip" -> RoundtripOk(a[1], r)
      [] op = "reparse" -> RoundtripOk(ParseMql(a[1].v), r)
      [] op = "legacy" -> r = LegacyRequest(a[1], a[2].v)
      [] op = "find" -> {PyNorm(r.c[i]) : i \in 1..Len(r.c)} = {PyNorm(x) : x \in FindInQuery(a[1], SearchKinds[a[2].v])}
      [] op = "aggname" -> r = BoolN(IsAggName(a[1].v, a[2]))
      [] op = "isagg" -> r = BoolN(IsAggregate(a[1], a[2]))
      [] op = "hascol" -> r = BoolN(HasColumn(a[1], a[2]))

\* A permitted result, to show in a report
OpExample(op, a) ==
    CASE op = "new" -> a[1]
      [] op = "set" -> SetResult(a)
      [] op \in {"serialize", "str"} /\ a[1].k = "query" -> Str(CHOOSE t \in SerializedTexts(a[1]) : TRUE)
      [] op = "print" /\ a[1].k = "query" -> Str(PrintedText(a[1]))
      [] op \in {"serialize", "print", "str"} /\ a[1].k = "mq" -> CHOOSE d \in MqSerialized(a[1]) : TRUE
      [] op \in {"to_dict", "json", "json_mql", "str", "print"} /\ a[1].k = "request" -> CHOOSE d \in RequestDicts(a[1]) : TRUE
      [] op \in {"parse", "reparse"} -> ParseMql(a[1].v)
      [] op \in {"roundtrip", "strictrt"} -> a[1]
      [] op = "legacy" -> LegacyRequest(a[1], a[2].v)
      [] op = "find" -> N("set", "", [i \in 1..0 |-> None])
      [] OTHER -> None

------------------------------------------------------------------------------
(* The machine *)
\* A node [k |-> "ref", v |-> i] in an argument is the i-th object of the heap
RECURSIVE Deref(_, _)
Deref(n, h) == IF n.k = "ref" THEN h[Int10(n.v)]
               ELSE IF Len(n.c) = 0 THEN n
               ELSE [n EXCEPT !.c = [i \in 1..Len(n.c) |-> Deref(n.c[i], h)]]
CONSTANTS Calls(_),     \* the calls <<op, args>> a program may make, given the heap; args may hold refs
          Mutations(_), \* the heaps a program may turn its heap into by itself
          Inputs(_)     \* the values a program may add to its heap by itself
VARIABLES heap, last

Creates == {"new", "set", "parse", "legacy"}
Raised(op, a) == OpErrs(op, a) # {}
ArgsOf(c) == [i \in 1..Len(c[2]) |-> Deref(c[2][i], heap)]
Init == heap = <<>> /\ last = <<>>
\* A call that raises leaves no trace; one that succeeds may add its result
Call ==
    \E c \in Calls(heap) :
        LET a == ArgsOf(c)
        IN /\ last' = c
           /\ IF ~Raised(c[1], a) /\ c[1] \in Creates
              THEN \E r \in {OpExample(c[1], a)} : OpAllows(c[1], a, r) /\ heap' = Append(heap, r)
              ELSE UNCHANGED heap
Mutate == \E h \in Mutations(heap) : heap' = h /\ last' = <<"mutate", <<>> >>
Input == \E x \in Inputs(heap) : heap' = Append(heap, x) /\ last' = <<"input", <<x>> >>
Next == Call \/ Mutate \/ Input
vars == <<heap, last>>
Spec == Init /\ [][Next]_vars
\* No call changes an object that exists
Persistent == [][Call => \A i \in 1..Len(heap) : heap'[i] = heap[i]]_vars
==============================================================================
