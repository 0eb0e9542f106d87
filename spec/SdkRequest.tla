----------------------------- MODULE SdkRequest -----------------------------
(***************************************************************************)
(* Delete queries and requests.                                            *)
(***************************************************************************)
EXTENDS SdkMetrics

DqErrs(d) ==
    LET cc == d.c[2]
    IN IF cc.k # "dict" THEN {"Exception"}
       ELSE If(Len(cc.c) = 0, "InvalidDeleteQueryError")
            \cup If(\E i \in 1..Len(cc.c) : cc.c[i].c[1].k \notin {"list", "tuple", "str", "dict", "set"}, "Exception")
            \cup If(\E i \in 1..Len(cc.c) : cc.c[i].c[1].k \in {"list", "tuple", "dict", "set"} /\ Len(cc.c[i].c[1].c) = 0,
                    "InvalidDeleteQueryError")
            \cup If(\E i \in 1..Len(cc.c) : cc.c[i].c[1] = Str(""), "InvalidDeleteQueryError")
DqDict(d) == DictN(<<Kv("columns", d.c[2])>>)

FlagChars == AlnumU \cup {".", "+", "*", "/", ":", "-", "[", "]"}
GoodId(n) == n.k = "str" /\ n.v # "" /\ AllIn(n.v, FlagChars)
FlagNames == <<"totals", "consistent", "turbo", "debug", "dry_run", "legacy">>
FlagErrs(f) == IF f.k # "flags" THEN {"Exception"}
               ELSE If(\E i \in 1..6 : f.c[i].k \notin {"none", "bool"}, "InvalidFlagError")
AnyQueryErrs(q) ==
    CASE q.k = "query" -> QueryErrs(q)
      [] q.k = "mq" -> MqErrs(q)
      [] q.k = "dq" -> DqErrs(q)
      [] OTHER -> {"Exception"}
IRE == "InvalidRequestError"
RequestErrs(r) ==
    If(~GoodId(r.c[1]), IRE) \cup If(~GoodId(r.c[2]), IRE)
    \cup If(~(r.c[5].k = "str" /\ r.c[5].v # ""), IRE)
    \cup If(r.c[6].k # "dict", IRE)
    \cup AnyQueryErrs(r.c[3])
    \cup (IF IsNone(r.c[4]) THEN {} ELSE FlagErrs(r.c[4]))
\* Rendering can fail on top of that: filters MQL cannot express, missing mappings, undecodable bytes
RequestSerErrs(r) ==
    RequestErrs(r)
    \cup (IF r.c[3].k = "mq" THEN MqSerErrs(r.c[3]) ELSE {})
    \cup If(r.c[3].k = "query" /\ ~Renders(r.c[3]), "Exception")

\* Keys in alphabetical order, as dictionaries are compared
FlagOrder == <<"consistent", "debug", "dry_run", "legacy", "totals", "turbo">>
FlagVal(f, name) == f.c[FieldIndex(FlagNames, name)]
FlagKvs(f, names) ==
    IF IsNone(f) THEN <<>>
    ELSE LET set == SelectSeq(names, LAMBDA x : ~IsNone(FlagVal(f, x)))
         IN [i \in 1..Len(set) |-> Kv(set[i], FlagVal(f, set[i]))]
RequestDict(r, body, ctx) ==
    LET f == r.c[4]
        isDq == r.c[3].k = "dq"
    IN DictN(<<Kv("app_id", r.c[2])>> \o FlagKvs(f, <<"consistent">>)
             \o (IF isDq THEN <<>> ELSE <<Kv("dataset", r.c[1])>>)
             \o FlagKvs(f, <<"debug", "dry_run", "legacy">>)
             \o (IF IsNone(ctx) THEN <<>> ELSE <<Kv("mql_context", ctx)>>)
             \o <<Kv("parent_api", r.c[5]), Kv("query", body), Kv("tenant_ids", r.c[6])>>
             \o FlagKvs(f, <<"totals", "turbo">>))
RequestDicts(r) ==
    LET q == r.c[3]
    IN CASE q.k = "query" -> {RequestDict(r, Str(t), None) : t \in SerializedTexts(q)}
         [] q.k = "mq" -> {RequestDict(r, Str(t), MqContext(q)) : t \in MqTexts(q)}
         [] q.k = "dq" -> {RequestDict(r, DqDict(q), None)}
==============================================================================
