-------------------------------- MODULE McNew --------------------------------
(***************************************************************************)
(* C08: every short string over a treacherous alphabet as every kind of    *)
(* name, and every constructor with every value of a pool in each field.    *)
(***************************************************************************)
EXTENDS Mc

Alphabet == {"a", "Z", "_", "1", ".", ":", "/", "@", "-", "[", "]", "(", "'", " ", "\n", "`", "+", "*", "\\", CharTable.uniword[1], CharTable.unispace[1]}
Small == {"a", "1", ".", "[", "]", "_", "\n", "-"}
Longer == {"a", "[", "]", "."}
Few == {"a", "[", "]", "\n"}
Names == Strings(Alphabet, 0, 2) \cup Strings(Small, 3, 3) \cup Strings(Longer, 4, IF Deep THEN 6 ELSE 5)
         \cup {Rep("a", 300), Rep("a", 300) \o " ", Rep("a.", 150) \o "[" \o Rep("k ", 150) \o "]", "tags[" \o Rep("é", 50) \o "]"}
Inside1 == Strings(Alphabet, 1, 1)
\* a character in the middle and at the end of a good name
Framed == {"ab" \o c \o "cd" : c \in Inside1} \cup {"tags[" \o c \o "]" : c \in Inside1} \cup {"ab" \o c : c \in Inside1} \cup {"a[k]" \o c : c \in Inside1}
          \cup {"a[" \o c \o d \o "]" : c \in Inside1, d \in Inside1}
AllNames == Names \cup Framed
NKinds == 12

\* Values for fields
Dm1 == DmN(<<Scol("a", TRUE)>>, Scol("t", FALSE))
Pool == << None, True, False, IntN(0), IntN(1), IntN(-1), IntN(10000), IntN(10001), IntS("100000000000000000000"), Flt("0.5"), Flt("1.0"), Flt("0.0"), Flt("-0.5"),
    Str(""), Str("a"), Str("ab"), Bytes("ab"), DtN(2024, 1, 1, 0, 0, 0, 0, None), DateN(2024, 1, 1),
    ListN(<<>>), TupN(<<>>), ListN(<<Col("a")>>), TupN(<<Col("a")>>), ListN(<<Col("a"), Col("b")>>), ListN(<<Str("a")>>), ListN(<<IntN(1), TupN(<<Str("s"), Flt("1.5")>>)>>),
    ListN(<<Obj>>), TupN(<<IntN(1), ListN(<<Obj>>)>>), ListN(<<Fn("ff", <<>>)>>), ListN(<<ListN(<<Col("a")>>)>>), ListN(<<None>>),
    DictN(<<>>), N("set", "", <<Str("a")>>), Obj,
    Col("a"), Fn("ff", <<>>), Cfn("ff", None, None, None), IdN("x"), LamN(<<Str("x")>>, Fn("ff", <<>>)), AliasedN(Col("a"), Str("x")), E0, Ent("e", "a"),
    EntityN("e", Str("a"), None, Dm1), StorageN("s", None, None), RelN(Ent("e", "a"), "r", Ent("e", "b")), JoinN(<<RelN(Ent("e", "a"), "r", Ent("f", "b"))>>),
    CondN(Col("a"), "EQ", IntN(1)), AndN(<<CondN(Col("a"), "EQ", IntN(1)), CondN(Col("a"), "EQ", IntN(2))>>),
    ListN(<<CondN(Col("a"), "EQ", IntN(1))>>), ListN(<<CondN(Col("a"), "EQ", IntN(1)), CondN(Col("b"), "EQ", IntN(1))>>),
    TupN(<<CondN(Col("a"), "EQ", IntN(1)), OrN(<<CondN(Col("a"), "EQ", IntN(1)), CondN(Col("a"), "EQ", IntN(2))>>)>>),
    ListN(<<CondN(Col("a"), "EQ", IntN(1)), Col("a")>>), ListN(<<Col("a"), CondN(Col("a"), "EQ", IntN(1))>>),
    ListN(<<CondN(Col("a"), "EQ", IntN(1)), CondN(Col("b"), "EQ", IntN(1)), CondN(Col("c"), "EQ", IntN(1)), Obj>>),
    OrderN(Col("a"), "ASC"), LimitByN(<<Col("a")>>, 1), OneN("limit", IntN(1)), OneN("totals", True), Q0(E0),
    OpN("EQ"), OpN("IS_NULL"), OpN("IN"), BopN("AND"), DirN("ASC"), Dm1,
    ListN(<<RelN(Ent("e", "a"), "r", Ent("e", "b"))>>), TupN(<<RelN(Ent("e", "a"), "r", Ent("f", "b"))>>), ListN(<<RelN(Ent("e", "a"), "r", Ent("e", "b")), Col("a")>>),
    ListN(<<Str("x"), IntN(1)>>), ListN(<<LamN(<<Str("x")>>, Fn("ff", <<IdN("x")>>)), IdN("x")>>), ListN(<<AliasedN(Col("a"), Str("x"))>>),
    ListN(<<E0>>), ListN(<<CondN(Col("a"), "EQ", IntN(1))>>), N("badbytes", "a", <<>>) >>
\* A well-formed instance of every kind, whose fields are replaced one and two at a time
Good == << Col("a"), ColE("a", Ent("e", "x")), AliasedN(Col("a"), Str("x")), Cfn("ff", ListN(<<IntN(1)>>), ListN(<<Col("a")>>), Str("x")), FnA("ff", <<Col("a")>>, "x"),
    IdN("x"), LamN(<<Str("x")>>, Fn("ff", <<>>)), EntityN("e", Str("a"), Flt("0.5"), Dm1), StorageN("s", Flt("0.5"), Dm1), RelN(Ent("e", "a"), "r", Ent("e", "b")),
    JoinN(<<RelN(Ent("e", "a"), "r", Ent("e", "b"))>>), CondN(Col("a"), "EQ", IntN(1)), CondN(Col("a"), "IS_NULL", None),
    BcondN("OR", <<CondN(Col("a"), "EQ", IntN(1)), CondN(Col("b"), "EQ", IntN(1))>>), AndN(<<CondN(Col("a"), "EQ", IntN(1)), CondN(Col("b"), "EQ", IntN(1))>>),
    OrN(<<CondN(Col("a"), "EQ", IntN(1)), CondN(Col("b"), "EQ", IntN(1))>>), OrderN(Col("a"), "ASC"), LimitByN(<<Col("a")>>, 1),
    OneN("limit", IntN(1)), OneN("offset", IntN(1)), OneN("gran", IntN(1)), OneN("totals", True), OneN("extrap", True) >>
NP == Len(Pool)
OneField(n) == {SetField(n, i, Pool[j]) : i \in 1..Len(n.c), j \in 1..NP}
TwoFields(n) == {SetField(SetField(n, i, Pool[j]), k, Pool[l]) : i \in 1..Len(n.c), k \in 1..Len(n.c), j \in 1..NP, l \in 1..NP}
\* every operator with every kind of right-hand side
Conds == {CondN(Col("a"), o, Pool[j]) : o \in OpNames, j \in 1..NP} \cup {CondN(Pool[j], o, None) : o \in OpNames, j \in 1..NP}
\* functions with two parameters; a bad one in either place
Ps == {Pool[j] : j \in {i \in 1..NP : Pool[i].k \notin {"bytes", "badbytes"}}}
Fns == {Fn("ff", <<p, q>>) : p \in Ps, q \in {Col("a"), Obj}} \cup {Cfn("ff", ListN(<<p, q>>), ListN(<<p>>), None) : p \in Ps, q \in {Col("a"), IntN(1)}}
       \cup {Fn("ff", <<Col("a"), Col("a"), Col("a"), p>>) : p \in Ps}
\* joins: one alias for one name
JE == {Ent(n, a) : n \in {"e", "f"}, a \in {"a", "b"}} \cup {EntityN("e", Str("a"), Flt("0.5"), None)}
Joins == {JoinN(<<RelN(x, "r", y)>>) : x \in JE, y \in JE} \cup {JoinN(<<RelN(x, "r", y), RelN(z, "s", w)>>) : x \in JE, y \in JE, z \in JE, w \in JE}
\* case matters, and so does the place of the second use of an alias
JC == {Ent(n, a) : n \in {"e", "E", "f"}, a \in {"a", "A", "aB", "ab"}}
CaseJoins == {JoinN(<<RelN(x, "r", y)>>) : x \in JC, y \in JC} \cup {JoinN(<<RelN(x, "r", y), RelN(y, "s", z)>>) : x \in JC, y \in JC, z \in JC}
JF == {Ent("e", "A"), Ent("e", "B"), Ent("f", "A"), Ent("f", "C")}
LongJoins == {JoinN(<<RelN(x, "r", y), RelN(y, "r", z), RelN(z, "s", w)>>) : x \in JF, y \in JF, z \in JF, w \in JF} \cup {JoinN(<<RelN(x, "r", y), RelN(x, "r", y), RelN(x, "r", z), RelN(Ent("z", "Z"), "r", w)>>) : x \in JF, y \in JF, z \in JF, w \in JF}
Nums == {OneN(k, IntN(i)) : k \in {"limit", "offset", "gran"}, i \in {-10000, -2, -1, 0, 1, 2, 9999, 10000, 10001, 20000}} \cup
        {LimitByN(<<Col("a"), Col("b")>>, i) : i \in {-1, 0, 1, 9999, 10000, 10001}}
NG == Len(Good)
\* long sequences with one element that may not be there, anywhere
Lens == {5, 33, 51, 65, 101, 257}
Spots(n) == {1, 2, n \div 2, n - 1, n}
OneBad(n, p, good, bad) == [i \in 1..n |-> IF i = p THEN bad ELSE good]
BadSeqs(good, bad) == {[i \in 1..n |-> good] : n \in Lens} \cup UNION {{OneBad(n, p, good, bad) : p \in Spots(n)} : n \in Lens}
CA == CondN(Col("a"), "EQ", IntN(1))
RA == RelN(Ent("e", "a"), "r", Ent("f", "b"))
LongNew(i) ==
    CASE i = 1 -> {CondN(Col("a"), "IN", ListN(s)) : s \in BadSeqs(IntN(1), Obj)} \cup {CondN(Col("a"), "IN", TupN(s)) : s \in BadSeqs(IntN(1), DictN(<<>>))}
      [] i = 2 -> {CondN(Col("a"), "IN", ListN(<<TupN(s), IntN(1)>>)) : s \in BadSeqs(Str("a"), Obj)} \cup {Fn("ff", <<Col("a"), ListN(s)>>) : s \in BadSeqs(Flt("0.5"), N("set", "", <<Str("a")>>))}
      [] i = 3 -> {Fn("ff", s) : s \in BadSeqs(Col("a"), Obj)} \cup {Fn("ff", s) : s \in BadSeqs(IntN(1), E0)}
      [] i = 4 -> {Cfn("ff", ListN(s), ListN(<<Col("a")>>), None) : s \in BadSeqs(IntN(1), Col("a"))} \cup {Cfn("ff", ListN(s), ListN(<<Col("a")>>), None) : s \in BadSeqs(Str("x"), Obj)}
      [] i = 5 -> {AndN(s) : s \in BadSeqs(CA, Col("a"))} \cup {BcondN("OR", s) : s \in BadSeqs(CA, Obj)}
      [] i = 6 -> {LimitByN(s, 1) : s \in BadSeqs(Col("a"), Fn("ff", <<>>))} \cup {LimitByN(s, 1) : s \in BadSeqs(Col("a"), Str("a"))}
      [] i = 7 -> {JoinN(s) : s \in BadSeqs(RA, E0)} \cup {JoinN(s) : s \in BadSeqs(RA, RelN(Ent("f", "a"), "r", Ent("f", "b")))}
      [] i = 8 -> {LamN(s, Fn("ff", <<>>)) : s \in BadSeqs(Str("x"), Str("x y"))} \cup {LamN(s, Fn("ff", <<>>)) : s \in BadSeqs(Str("x"), IntN(1))}
NLong == 8
McGroups == NKinds + NG + NLong + 6
News(S) == {C("new", <<n>>) : n \in S}
McCases(g) ==
    IF g <= NKinds THEN
         (CASE g = 1 -> {C("new", <<Col(s)>>) : s \in AllNames} \cup {C("colparts", <<Col(s)>>) : s \in {x \in Framed : ColumnName(x)}}
            [] g = 2 -> {C("new", <<Fn(s, <<>>)>>) : s \in AllNames}
            [] g = 3 -> {C("new", <<FnA("ff", <<>>, s)>>) : s \in AllNames}
            [] g = 4 -> {C("new", <<IdN(s)>>) : s \in AllNames}
            [] g = 5 -> {C("new", <<LamN(<<Str("x"), Str(s)>>, Fn("ff", <<>>))>>) : s \in Names}
            [] g = 6 -> {C("new", <<EntityN(s, None, None, None)>>) : s \in Names}
            [] g = 7 -> {C("new", <<StorageN(s, None, None)>>) : s \in Names}
            [] g = 8 -> {C("new", <<AliasedN(Col("a"), Str(s))>>) : s \in Names}
            [] g = 9 -> {C("new", <<Cfn(s, ListN(<<>>), None, None)>>) : s \in Framed}
            [] g = 10 -> {C("new", <<EntityN("e", Str(s), None, None)>>) : s \in Inside1 \cup {""}}
            [] g = 11 -> {C("new", <<RelN(Ent("e", "a"), s, Ent("e", "b"))>>) : s \in Inside1 \cup {""}}
            [] g = 12 -> {C("new", <<Cfn("ff", None, None, Str(s))>>) : s \in Framed})
    ELSE IF g <= NKinds + NG
    THEN News(OneField(Good[g - NKinds])) \cup (IF Deep THEN News(TwoFields(Good[g - NKinds])) ELSE {})
    ELSE IF g <= NKinds + NG + NLong THEN News(LongNew(g - NKinds - NG))
    ELSE CASE g = McGroups - 5 -> News(CaseJoins) [] g = McGroups - 4 -> News(LongJoins) [] g = McGroups - 3 -> News(Conds) [] g = McGroups - 2 -> News(Fns) [] g = McGroups - 1 -> News(Joins) [] g = McGroups -> News(Nums)

------------------------------------------------------------------------------
(* Laws *)
n0 == last[2][1]
\* names are matched in full: no accepted name holds a blank, newline or backquote, except in a subscript or (blank) function name
LawFull == Done /\ last[1] = "new" /\ NewErrs(n0) = {} =>
    (n0.k = "col" => ~AnyIn(Subscriptable(n0.c[1].v), Space \cup {"`", "'", "("}))
    /\ (n0.k \in {"ident"} => ~AnyIn(n0.c[1].v, Space \cup {"`", "."}))
    /\ (n0.k \in {"entity", "storage"} => ~AnyIn(n0.c[1].v, Space \cup Digit))
    /\ (n0.k \in FnKinds /\ ~IsNone(FAlias(n0)) => ~AnyIn(FAlias(n0).v, Space \cup {"`"}))
\* a subscripted column name is rebuilt from its parts
LawParts == Done /\ last[1] = "colparts" => LET s == n0.c[1].v IN (HasSub(s) => Subscriptable(s) \o "[" \o SubKey(s) \o "]" = s)
Laws == LawFull /\ LawParts
==============================================================================
