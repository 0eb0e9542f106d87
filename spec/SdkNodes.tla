------------------------------ MODULE SdkNodes ------------------------------
(***************************************************************************)
(* Values.  Every Python value the SDK handles is one node                 *)
(*     [k |-> kind, v |-> text, c |-> <<children>>]                         *)
(* Literals: none, bool ("True"/"False"), int (decimal digits), float      *)
(* (repr), str, bytes (decoded), dt <<y,mo,d,h,mi,s,us,offset>>, date       *)
(* <<y,mo,d>>; containers list, tuple, set, dict (of kv <<key, value>>);    *)
(* obj is any other object.                                                 *)
(* Expressions: col <<name,entity>>, aliased <<exp,alias>>,                 *)
(* cfn <<function,initializers,parameters,alias>>,                          *)
(* fn <<function,parameters,alias>>, ident <<name>>,                        *)
(* lambda <<identifiers,transformation>>,                                   *)
(* entity <<name,alias,sample,data_model>>, storage <<name,sample,dm>>,     *)
(* rel <<lhs,name,rhs>>, join <<relationships>>, cond <<lhs,op,rhs>>,       *)
(* bcond <<op,conditions>>, and/or <<conditions>>, orderby <<exp,dir>>,     *)
(* limitby <<columns,count>>, limit/offset/gran/totals/extrap <<value>>.    *)
(* Schema: dm <<list of scol, scol>>, scol (v = name) <<required>>.         *)
(* Enumerations: op, bop, dir (v = member name).                            *)
(* query <<match,select,groupby,array_join,where,having,orderby,limitby,    *)
(*        limit,offset,granularity,totals>>                                 *)
(* Metrics: metric <<public_name,mri,id>>,                                  *)
(* ts <<metric,aggregate,aggregate_params,filters,groupby>>,                *)
(* formula <<function_name,parameters,aggregate_params,filters,groupby>>,   *)
(* rollup <<interval,totals,orderby,granularity>>,                          *)
(* scope <<org_ids,project_ids,use_case_id>>,                               *)
(* mq <<query,start,end,rollup,scope,limit,offset,extrapolate,mappings>>.   *)
(* dq <<storage_name,column_conditions>>; flags <<6 flags>>;                *)
(* request <<dataset,app_id,query,flags,parent_api,tenant_ids>>.            *)
(***************************************************************************)
EXTENDS SdkText

N(k, v, c) == [k |-> k, v |-> v, c |-> c]
None == N("none", "", <<>>)
Str(s) == N("str", s, <<>>)
IntS(s) == N("int", s, <<>>)
IntN(n) == N("int", ToString(n), <<>>)
Flt(r) == N("float", r, <<>>)
True == N("bool", "True", <<>>)
False == N("bool", "False", <<>>)
ListN(c) == N("list", "", c)
TupN(c) == N("tuple", "", c)
DictN(c) == N("dict", "", c)
Kv(k, x) == N("kv", k, <<x>>)
OpN(o) == N("op", o, <<>>)
BopN(o) == N("bop", o, <<>>)
DirN(o) == N("dir", o, <<>>)
ColE(name, e) == N("col", "", <<Str(name), e>>)
Col(name) == ColE(name, None)
Fn(f, ps) == N("fn", "", <<Str(f), ListN(ps), None>>)
FnA(f, ps, a) == N("fn", "", <<Str(f), ListN(ps), Str(a)>>)
CondN(l, o, r) == N("cond", "", <<l, OpN(o), r>>)
AndN(cs) == N("and", "", <<ListN(cs)>>)
OrN(cs) == N("or", "", <<ListN(cs)>>)
BcondN(o, cs) == N("bcond", "", <<BopN(o), ListN(cs)>>)
EntityN(name, alias, sample, dm) == N("entity", "", <<Str(name), alias, sample, dm>>)
Scol(name, req) == N("scol", name, <<IF req THEN True ELSE False>>)
DmN(cols, t) == N("dm", "", <<ListN(cols), t>>)
JoinN(rels) == N("join", "", <<ListN(rels)>>)
RelN(l, name, r) == N("rel", "", <<l, Str(name), r>>)

IsNone(n) == n.k = "none"
Children(n) == n.c
Arg(n, i) == n.c[i]

LiteralKinds == {"none", "bool", "str", "bytes", "badbytes", "float", "int", "date", "dt"}
ExprKinds == {"col", "aliased", "cfn", "fn", "ident", "lambda", "entity", "storage", "rel", "join",
              "cond", "bcond", "and", "or", "orderby", "limitby", "limit", "offset", "gran",
              "totals", "extrap"}
FnKinds == {"cfn", "fn"}
BoolKinds == {"bcond", "and", "or"}
CondKinds == {"cond"} \cup BoolKinds
SelectKinds == {"aliased", "col", "cfn", "fn"}
SeqKinds == {"list", "tuple"}
IsLiteral(n) == n.k \in LiteralKinds
IsExpr(n) == n.k \in ExprKinds

\* Python's bool is an int
IsIntLike(n) == n.k \in {"int", "bool"}
IntText(n) == IF n.k = "bool" THEN (IF n.v = "True" THEN "1" ELSE "0") ELSE n.v

\* The elements of a collections.abc.Sequence (a str is one, too)
IsSequence(n) == n.k \in {"list", "tuple", "str"}
Elems(n) == IF n.k = "str" THEN [i \in 1..Len(n.v) |-> Str(Ch(n.v, i))] ELSE n.c

\* "yes": a scalar; "no": not one; "raise": an array or tuple with something else in it
RECURSIVE ScalarKind(_)
ScalarKind(n) ==
    IF IsLiteral(n) THEN "yes"
    ELSE IF n.k \in SeqKinds
         THEN IF \A i \in 1..Len(n.c) : IsExpr(n.c[i]) \/ ScalarKind(n.c[i]) = "yes" THEN "yes" ELSE "raise"
         ELSE "no"

\* The function-like nodes seen uniformly
FName(n) == n.c[1]
FInit(n) == IF n.k = "cfn" THEN n.c[2] ELSE None
FParams(n) == IF n.k = "cfn" THEN n.c[3] ELSE n.c[2]
FAlias(n) == IF n.k = "cfn" THEN n.c[4] ELSE n.c[3]

BoolOp(n) == CASE n.k = "and" -> "AND" [] n.k = "or" -> "OR" [] OTHER -> n.c[1].v
BoolConds(n) == IF n.k = "bcond" THEN n.c[2].c ELSE n.c[1].c

UnaryOps == {"IS_NULL", "IS_NOT_NULL"}
OpText == ("GT" :> ">") @@ ("LT" :> "<") @@ ("GTE" :> ">=") @@ ("LTE" :> "<=") @@ ("EQ" :> "=") @@ ("NEQ" :> "!=")
          @@ ("IN" :> "IN") @@ ("NOT_IN" :> "NOT IN") @@ ("LIKE" :> "LIKE") @@ ("NOT_LIKE" :> "NOT LIKE")
          @@ ("IS_NULL" :> "IS NULL") @@ ("IS_NOT_NULL" :> "IS NOT NULL") @@ ("NOT" :> "!")
OpNames == DOMAIN OpText

QMatch(q) == q.c[1]
QFields == <<"match", "select", "groupby", "array_join", "where", "having", "orderby", "limitby",
             "limit", "offset", "granularity", "totals">>
QSelect(q) == q.c[2]
QGroupby(q) == q.c[3]
QWhere(q) == q.c[5]
QTotals(q) == q.c[12]
FieldIndex(fs, f) == CHOOSE i \in 1..Len(fs) : fs[i] = f
SetField(n, i, x) == [n EXCEPT !.c = [n.c EXCEPT ![i] = x]]

DmCols(dm) == dm.c[1].c
DmNames(dm) == {DmCols(dm)[i].v : i \in 1..Len(DmCols(dm))}
DmRequired(dm) == {DmCols(dm)[i].v : i \in {j \in 1..Len(DmCols(dm)) : DmCols(dm)[j].c[1].v = "True"}}
DmTime(dm) == dm.c[2].v
MatchDm(m) == IF m.k = "entity" THEN m.c[4] ELSE m.c[3]

Truthy(n) == ~(n.k = "none" \/ (n.k \in {"list", "tuple", "dict", "set"} /\ Len(n.c) = 0)
               \/ (n.k = "str" /\ n.v = "") \/ (n.k = "bool" /\ n.v = "False")
               \/ (n.k = "int" /\ n.v = "0") \/ (n.k = "bytes" /\ n.v = "")
               \/ (n.k = "float" /\ FloatIsZero(n.v)))
==============================================================================
