--------------------------------- MODULE McMql ---------------------------------
(***************************************************************************)
(* C10, C11, C12: MQL texts and the expressions they stand for.             *)
(***************************************************************************)
EXTENDS Mc

------------------------------------------------------------------------------
(* C11: sentences, and everything one edit away from a sentence *)
Base == << "sum(a.b)", "sum(d:transactions/duration@second)", "sum(`d:c/x y@none`)", "sum(a.b){c:d}", "sum(a{b:c})", "max(a.b{c:\"d e\"} by f)", "avg(a.b){c:[\"d\", e]} by (f, g.h)",
           "sum(a){!b:c* OR d:e, f:g}", "sum(a){(b:c or d:e) AND f:\"g*\"}", "p(0.5)(a.b)", "q(1, \"x\", y)(a){b:c}", "sum(a) + max(b) * 2", "-sum(a) / (avg(b) - 1.5)",
           "f(sum(a), 2)", "f(3)(sum(a) + sum(b)){c:d} by e", "(sum(a) - sum(b)){c:d} by (e)", "a.b", "a.b{c:d} by e", "f(g(sum(a){b:c}){d:e}){h:i}", "sum(a){b:$x}", "sum(a) by ( b , c )", "sum(a){ b : c AND d:e }" >>
NB == Len(Base)
Toks == {";", " ", "(", ")", "{", "}", "[", "]", ",", ":", "!", "*", "-", "+", "/", "\"", ".", "$", "@", "`", "a", "B", "_", "1", "0", "\\", "\n", "\t", "'", "by", " by ", "AND", " AND ", " OR ", " or ", " Or ", " and ", " And ", "()", "{}", "{x:y}", "(a)", "é", "#", "=", "<", "|", "~", "^", "?", "&", ">", "a.b", "2.5", " + 1", " * ", " - "}
FewToks == {";", " ", "(", ")", "{", "}", "[", "]", ",", ":", "!", "*", "-", "\"", ".", "a", "B", "1", "\\", "\n", "$", "AND", " OR ", " by "}
Ins(s, i, t) == SubSeq(s, 1, i) \o t \o From(s, i + 1)
Rpl(s, i, t) == SubSeq(s, 1, i - 1) \o t \o From(s, i + 1)
LowerOf == [c \in Upper |-> CHOOSE l \in Lower : UpperOf[l] = c]
Flip(c) == IF c \in Lower THEN UpperOf[c] ELSE IF c \in Upper THEN LowerOf[c] ELSE c
Edits(s, T) == {Ins(s, i, t) : i \in 0..Len(s), t \in T} \cup {Rpl(s, i, "") : i \in 1..Len(s)}
Replaced(s, T) == {Rpl(s, i, t) : i \in 1..Len(s), t \in T} \cup {Rpl(s, i, Flip(Ch(s, i))) : i \in 1..Len(s)}
Swaps(s) == {SubSeq(s, 1, i - 1) \o Ch(s, i + 1) \o Ch(s, i) \o From(s, i + 2) : i \in 1..(Len(s) - 1)} \cup {SubSeq(s, 1, i) : i \in 0..Len(s)} \cup {From(s, i) : i \in 1..Len(s)}
            \cup {SubSeq(s, 1, i) \o Ch(s, i) \o From(s, i + 1) : i \in 1..Len(s)}
P(S) == {C("parse", <<Str(s)>>) : s \in S}

\* arithmetic: every sequence of operators, with every bracketing
Op3 == {"+", "-", "*", "/"}
Tm == <<"sum(a)", "2", "-max(b)", "(avg(c) + 1)", "f(sum(a), 1.5)", "-1.5", "sum(a){x:y} by z">>
Ar2 == {Tm[i] \o o \o Tm[j] : i \in 1..7, j \in 1..7, o \in {"+", " - ", " *", "/ "}}
Ar3 == {Tm[i] \o " " \o o \o " " \o Tm[j] \o p \o Tm[k] : i \in {1, 2, 3}, j \in {1, 2, 4, 6}, k \in {1, 3, 7}, o \in Op3, p \in Op3}
Ar4 == {"sum(a)" \o o \o "2" \o p \o "max(b)" \o q \o "3" : o \in Op3, p \in Op3, q \in Op3}
Br == {"(sum(a)" \o o \o "2)" \o p \o "max(b)" : o \in Op3, p \in Op3} \cup {"sum(a)" \o o \o "(2" \o p \o "max(b))" : o \in Op3, p \in Op3} \cup {"-(sum(a)" \o o \o "2)" \o p \o "-max(b)" : o \in Op3, p \in Op3}
      \cup {"((sum(a)))" \o o \o "(((2" \o p \o "max(b))))" : o \in Op3, p \in Op3} \cup {"(sum(a)" \o o \o "2){x:y}" \o p \o "max(b){z:w} by (q)" : o \in Op3, p \in Op3}
Nums == {"sum(a) + " \o s \o x : s \in {"", "-"}, x \in {"0", "1", "00", "007", "1.0", "1.50", "0.5", "0.0001", "0.00001", "123456789012345", "10000000000000000", "100000000000000000000", "1e5", ".5", "5.", "1.2.3", "0.1", "3.14159", "1 2"}}
\* numbers of every length and scale, up to 15 significant digits
NumI == {"0", "00", "1", "9", "10", "12", "007", "1234567", "100000"}
NumF == {Rep("0", z) \o SubSeq("123456789", 1, n) : z \in {0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 15, 19}, n \in {1, 2, 5, 8}}
NumX == {x \o "." \o y : x \in NumI, y \in {f \in NumF : Len(f) <= 9}} \cup {x \o "." \o y : x \in {"0", "00"}, y \in NumF} \cup {"1." \o Rep("0", n) : n \in 1..20} \cup {SubSeq("123456789123456", 1, n) \o Rep("0", z) : n \in 1..15, z \in {0, 1, 3, 7}} \cup {Rep("0", n) \o "25" : n \in 1..9}
NumTexts == {"sum(a)*" \o x : x \in NumX} \cup {"q(" \o x \o ", s)(a)" : x \in NumX} \cup {"f1(sum(a), -" \o x \o ")" : x \in NumX}

\* conditions: every joint between three conditions, bare and grouped
Jn == {" AND ", " and ", ", ", ",", " ", " OR ", " or ", " ,", "  AND\n", " Or ", " oR ", " And ", "AND", "OR", ", AND ", " AND , ", " AND OR ", " OR AND ", " XOR ", ""}
Cd == <<"x:a", "!y:b", "z:[c, d]", "w:e*", "v:\"q r\"">>
Two2 == {"sum(m){" \o c \o j \o d \o "}" : c \in SetOf(Cd), d \in SetOf(Cd), j \in Jn}
JnOk == {" AND ", " or ", ",", " ", " OR ", " and "}
Three3 == {"sum(m){x:a" \o i \o "!y:b" \o j \o "z:[c, d]}" : i \in Jn, j \in Jn} \cup {"sum(m){(x:a" \o i \o "!y:b)" \o j \o "z:[c, d]}" : i \in JnOk, j \in JnOk} \cup {"sum(m){x:a" \o i \o "(!y:b" \o j \o "z:[c, d])}" : i \in JnOk, j \in JnOk}
          \cup {"sum(m){(x:a" \o i \o "y:b)" \o j \o "(z:c" \o k \o "w:d)}" : i \in JnOk, j \in JnOk, k \in JnOk}
Four4 == {"sum(m){x:a" \o i \o "y:b" \o j \o "z:c" \o k \o "w:d}" : i \in JnOk, j \in JnOk, k \in JnOk}
\* keys, values and negations
Keys == {"a", "a.b", "A_1", "1", "_", "a-b", "tags[x]", "a b", "", "$v", "and", "or", "AND", "OR", "by", "ORx", "orange", "android", "andy.b", "é", "!a", ".", "a."}
Vals == {"b", "B-c", "1.5", "\"\"", "\"b\"", "\"b*\"", "b*", "*", "\"*\"", "\"b c*\"", "\"b c\"", "b*c", "\"b*c\"", "[b]", "[\"b\"]", "[b,\"c d\"]", "[b, c ,d ]", "[]", "[b,]", "[,b]", "[b*]", "[\"b*\"]", "\"b\\\"c\"", "\"b\\\\\"", "\"b\\nc\"", "\"b", "b\"", "'b'", "$v", "a:b", "(b)", "b)", "!b", "AND", "and", "or", "OR", "by", "é", "\"b\nc\"", "-1", "b.c", "b/c@d", "\"[b]\"", "[[b]]", "\"}\"", "\"a, b\"", "b;"}
KV == {"sum(m){" \o k \o ":" \o v \o "}" : k \in Keys, v \in {"b", "\"b c\"", "[b, c]", "b*"}} \cup {"sum(m){" \o n \o "k" \o s \o v \o t \o "}" : n \in {"", "!", "! ", "!!", "-"}, s \in {":", " : "}, v \in Vals, t \in {"", " "}}
       \cup {"sum(m){" \o v1 \o j \o v2 \o "}" : v1 \in {"k:" \o v : v \in Vals}, v2 \in {"android:x", "orange:x", "by:x", "OR:x", "and:x"}, j \in {" ", " AND ", " OR "}}
\* what filters and group bys attach to
At1 == {t \o f \o g \o h : t \in {"sum(m)", "m", "sum(m{p:q})", "sum(m by p)", "sum(m{p:q} by p)", "(sum(m))", "f(sum(m))", "f(2)(sum(m))", "sum(2)(m)", "sum(2)(m{p:q} by p)", "-sum(m)", "(sum(m) + 1)", "sum(m) + 1", "1 + sum(m)", "f(sum(m){p:q} by p)", "f(m)", "f(m, sum(n))", "f(2)(m, sum(n))", "f(2)(m + n)", "(m)", "f((m))", "f(2)((m))"},
                           f \in {"", "{a:b}", " {a:b}", "{a:b} ", "{a:b}{c:d}", "{}", "{ a:b }", "{ }"},
                           g \in {"", " by a", "by a", " by (a)", " by (a, b)", " by(a,b)", " by a, b", " by ()", " by a.b", " by a by b", " BY a", " by [a]", " by (a,)", " by 1", " by  a", "\nby\ta", " by", " by (a) by (b)"},
                           h \in {"", "{e:f}"}}
\* metric names and parameters
Mets == {"a", "a.b", "a_b.c_d", "A", "a.B", "a1", "a..b", ".a", "a.", "`a`", "`a.b`", "`A`", "`a", "a`", "d:c/n@u", "`d:c/n@u`", "d:c/n@u v", "`d:c/n@u v`", "d:c/n@", "d:c/@u", "d:/n@u", ":c/n@u", "d:c/n", "d:c@u", "`d:c/n(x)@u`", "d:c/n(x)@u", "d:c/n-1@u", "d:c/n.x@u", "d:c/n, x@u", "`d:c/n, x@u`", "d:c/n@u{x:y}", "`d:c/n@u`{x:y}", "`d:c/[n]@u`", "\"a\"", "1", "-1", "$a", "a b", "é", "d:c/é@u", "d:c/n@u@v", "d:c/n/o@u", "d::c/n@u", "`d:c/n@u` ", " a ", ""}
Aggs == {"sum", "p95", "Sum", "a_b", "1", "_", "a.b", "a-b", "count_unique", "é", "", "AGGREGATE_PLACEHOLDER", "by", "plus", "negate"}
Pars == {"", "()", "(0.5)", "( 0.5 )", "(0.5, 1)", "(0.5,1,2)", "(a)", "(\"a\")", "(\"a b\")", "(a, 1)", "(,)", "(1,)", "(-1)", "(\"\")", "(a b)", "(a.b)", "(sum(x))", "(1)(2)", "(\"a\\\"b\")", "(1 2)", "($a)", "(a*)", "([a])", "(d:c/n@u)"}
MP == {a \o p \o "(" \o m \o ")" : a \in {"sum", "p95"}, p \in {"", "(1)"}, m \in Mets} \cup Mets \cup {a \o p \o "(m.n)" : a \in Aggs, p \in Pars} \cup {a \o p \o "(sum(m), 2)" : a \in {"f", "sum"}, p \in Pars} \cup {"f(" \o x \o j \o y \o ")" : x \in {"sum(a)", "1", "\"s\"", "m", "-sum(a)", "sum(a) + 1"}, j \in {", ", ",", " , ", " ", ",,"}, y \in {"sum(b)", "2", "\"t\"", "n", "-1", "x:y"}}

------------------------------------------------------------------------------
(* C10, C12: expressions *)
M1 == MetricN(Str("a.b"), None)
M2 == MetricN(None, Str("d:transactions/duration@second"))
T0 == TsN(M1, "sum", None, None, None)
T2 == TsN(M2, "p", ListN(<<Flt("0.5"), Str("x")>>), None, None)
TF == TsN(M1, "max", None, ListN(<<CondN(Col("x"), "EQ", Str("y"))>>), None)
TG == TsN(M1, "avg", None, None, ListN(<<Col("g"), Col("h.i")>>))
TFG == TsN(M2, "min", None, ListN(<<CondN(Col("x"), "NOT_IN", ListN(<<Str("y"), Str("z w")>>)), OrN(<<CondN(Col("x"), "LIKE", Str("q*")), CondN(Col("y"), "NEQ", Str(""))>>)>>), ListN(<<Col("g")>>))
LeafS == <<T0, T2, TF, TFG, IntN(2), Flt("1.5"), IntN(-3), Flt("-0.5"), Flt("1e-07"), TG>>
IsTree(x) == x.k \in {"ts", "formula"}
Fo(f, ps) == FormulaN(f, ps, None, None, None)
FilA == ListN(<<CondN(Col("k"), "EQ", Str("v"))>>)
GrA == ListN(<<Col("g")>>)
Ops4 == {"plus", "minus", "multiply", "divide"}
D1(L) == {Fo(o, <<L[i], L[j]>>) : o \in Ops4, i \in 1..Len(L), j \in 1..Len(L)}
\* one tree of every shape
Shapes == <<T0, TF, IntN(2), Flt("-0.5"), Fo("plus", <<T0, IntN(1)>>), Fo("minus", <<TF, T0>>), Fo("multiply", <<IntN(2), T0>>), Fo("divide", <<T0, T2>>), Fo("negate", <<T0>>), Fo("negate", <<Fo("plus", <<T0, T0>>)>>),
            Fo("f1", <<T0>>), Fo("f1", <<T0, IntN(2), TF>>), FormulaN("f2", <<T0, Flt("0.5")>>, ListN(<<IntN(1), Str("p")>>), None, None), FormulaN("plus", <<T0, T0>>, None, FilA, GrA), FormulaN("minus", <<T0, IntN(1)>>, None, FilA, None),
            FormulaN("negate", <<T0>>, None, FilA, None), FormulaN("negate", <<TF>>, None, None, GrA), FormulaN("f1", <<T0>>, None, FilA, GrA), FormulaN("f2", <<TF>>, ListN(<<Flt("0.25")>>), FilA, None)>>
NS == Len(Shapes)
D2 == {Fo(o, <<Shapes[i], Shapes[j]>>) : o \in Ops4, i \in 1..NS, j \in 1..NS}
D2u == {FormulaN(f, <<Shapes[i]>>, ap, fl, gb) : f \in {"negate", "f1"}, i \in 1..NS, ap \in {None, ListN(<<>>)}, fl \in {None, ListN(<<>>), FilA}, gb \in {None, ListN(<<>>), GrA}}
       \cup {FormulaN("f3", <<Shapes[i], Shapes[j]>>, ap, fl, None) : i \in 1..NS, j \in 1..NS, ap \in {None, ListN(<<IntN(7)>>)}, fl \in {None, FilA}}
D3 == {Fo(o, <<Fo(p, <<Shapes[i], Fo(q, <<Shapes[j], T0>>)>>), Shapes[k]>>) : o \in {"minus", "multiply"}, p \in {"minus", "divide"}, q \in {"minus", "multiply"}, i \in {1, 4, 5, 9}, j \in {2, 3, 6, 10, 14}, k \in {1, 3, 8, 16}}
Deep3 == {Fo(o, <<Shapes[k], Fo(p, <<Shapes[i], Fo(q, <<T0, Shapes[j]>>)>>)>>) : o \in Ops4, p \in Ops4, q \in Ops4, i \in {1, 4, 5, 9}, j \in {2, 3, 6, 10, 14}, k \in {1, 3, 8, 16}}
\* filters
ValS == {"", "v", "v*", "*", "a b", "a b*", "a\"b", "a'b", "a,b", "[a]", "a:b", "é", "{", "(", ")", "1", "AND", "$x", "-", "\t", "*a", "a*b", "\"", "\"*", "`", "!a", "OR", "]"}
Cnd1 == {CondN(Col(k), o, Str(v)) : k \in {"k", "a.b", "AND", "or", "_1"}, o \in {"EQ", "NEQ", "LIKE", "NOT_LIKE"}, v \in ValS} \cup {CondN(Col("k"), o, l) : o \in {"IN", "NOT_IN"}, l \in {ListN(<<Str(v)>>) : v \in ValS} \cup {TupN(<<Str(v), Str(w)>>) : v \in ValS, w \in {"x", "y*", "z w"}}}
B3 == <<CondN(Col("x"), "EQ", Str("1")), CondN(Col("y"), "NEQ", Str("2")), CondN(Col("x"), "EQ", Str("3"))>>
Bl(k, cs) == CASE k = 1 -> AndN(cs) [] k = 2 -> OrN(cs) [] k = 3 -> BcondN("AND", cs) [] k = 4 -> BcondN("OR", cs)
Bools == {Bl(k, <<B3[1], B3[i]>>) : k \in 1..4, i \in 2..3} \cup {Bl(k, <<Bl(l, <<B3[1], B3[2]>>), B3[3]>>) : k \in 1..4, l \in 1..4} \cup {Bl(k, <<B3[1], Bl(l, <<B3[2], B3[3]>>)>>) : k \in 1..4, l \in 1..4}
         \cup {Bl(k, <<Bl(l, <<B3[1], B3[2]>>), Bl(m, <<B3[3], Bl(k, B3)>>)>>) : k \in 1..2, l \in 1..2, m \in 1..2}
FLists == {<<x>> : x \in Bools} \cup {<<x, B3[2]>> : x \in Bools} \cup {<<B3[1], x, y>> : x \in {Bl(1, B3), Bl(2, B3), Bl(4, <<B3[1], B3[3]>>)}, y \in {Bl(1, B3), Bl(2, B3), B3[2], Bl(2, <<B3[1], B3[3]>>)}}
TsF(fs) == TsN(M1, "sum", None, ListN(fs), None)
MNames == {MetricN(Str(s), None) : s \in {"a", "a.b", "a_b", "a.b_c.d", "by", "sum", "and"}} \cup {MetricN(None, Str(s)) : s \in {"d:c/n@u", "d:c/n(x)@u", "d:c/n x@u", "d:c/[n]@u", "d:c/n.a-b@none", "c:custom/é@none", "d:c/n,x@u", "d:c/\"n\"@u", "d:c/{n}@u", "g:a/b/c@d@e", " d:c/n@u", "d:c/n@u ", " d:c/n(x)@u", "d:c/n(x)@u ", "\td:c/n@u", "d :c/n@u", "d: c/ n @ u", "d:c/n@u\t", "d:c/n(@u  "}} \cup {MetricN(Str("a.b"), Str("d:c/n@u"))}
PList == {<<>>, <<IntN(0)>>, <<IntN(7)>>, <<Flt("0.5")>>, <<Flt("1e-07")>>, <<Flt("1e+16")>>, <<Flt("100000.0")>>, <<Str("a")>>, <<Str("")>>, <<Str("a b")>>, <<Str("a\"b")>>, <<IntN(1), Str("x"), Flt("2.5")>>, <<Str("1")>>, <<Str("a,b")>>, <<Str("é")>>, <<Str("(")>>}
Parts == {TsN(m, a, None, None, None) : m \in MNames, a \in {"sum", "p95", "A_1", "by"}} \cup {TsN(m, "q", ListN(p), None, GrA) : m \in {M1, M2}, p \in PList} \cup {TsN(M1, "sum", None, None, ListN(g)) : g \in Seqs({Col("a"), Col("b.c"), Col("by")}, 0, 3)}
         \cup {FormulaN("f", <<T0>>, ListN(p), None, None) : p \in PList} \cup {FormulaN(f, <<x, T0>>, None, None, ListN(g)) : f \in {"plus", "f"}, x \in {T0, IntN(1)}, g \in Seqs({Col("a"), Col("b.c")}, 0, 2)}
(* Neighbours: elements that agree in a part and differ in another, next to each other *)
NearV == {"a", "b", "A", "a*", "a b"}
NearF == {CondN(Col(k), o, Str(v)) : k \in {"k", "K", "k.j"}, o \in {"EQ", "NEQ", "LIKE"}, v \in {"a", "b", "a*"}} \cup {CondN(Col("k"), o, ListN(l)) : o \in {"IN", "NOT_IN"}, l \in {<<Str("a")>>, <<Str("a"), Str("b")>>, <<Str("b"), Str("a")>>, <<Str("a"), Str("a")>>, <<Str("a*"), Str("a")>>}}
NearP == {IntN(1), Flt("1.0"), Str("1"), Str("a"), Str("b"), IntN(2), Flt("0.5"), Flt("0.25"), IntN(0), Str("")}
NearG == {Col("a"), Col("b"), Col("A"), Col("a.b"), Col("by")}
NearT == {T0, TsN(M1, "max", None, None, None), TsN(M2, "sum", None, None, None), TsN(M1, "sum", ListN(<<IntN(1)>>), None, None), TsN(M1, "sum", ListN(<<Flt("1.0")>>), None, None), TsF(<<CondN(Col("k"), "EQ", Str("a"))>>), TsF(<<CondN(Col("k"), "NEQ", Str("a"))>>),
          TsN(M1, "sum", None, None, ListN(<<Col("a")>>)), TsN(M1, "sum", None, None, ListN(<<Col("b")>>)), IntN(1), Flt("1.0"), IntN(2), Flt("0.5"), IntN(0), Fo("negate", <<T0>>), Fo("f1", <<T0>>), Fo("f1", <<T0, IntN(1)>>), Fo("plus", <<T0, IntN(1)>>), Fo("plus", <<IntN(1), T0>>)}
NearX(i) ==
    CASE i = 1 -> {TsF(<<x, y>>) : x \in NearF, y \in NearF}
      [] i = 2 -> {FormulaN("plus", <<T0, TsF(<<x>>)>>, None, ListN(<<y>>), None) : x \in NearF, y \in NearF}
      [] i = 3 -> {TsF(<<OrN(<<x, y>>), x>>) : x \in NearF, y \in NearF}
      [] i = 4 -> {TsF(<<y, AndN(<<x, y, x>>)>>) : x \in NearF, y \in NearF}
      [] i = 5 -> {TsN(M1, "q", ListN(<<x, y>>), None, None) : x \in NearP, y \in NearP}
      [] i = 6 -> {FormulaN("f1", <<T0, IntN(1)>>, ListN(<<x, y, x>>), None, None) : x \in NearP, y \in NearP}
      [] i = 7 -> {TsN(M1, "q", None, None, ListN(<<x, y, z>>)) : x \in NearG, y \in NearG, z \in {Col("a"), Col("c")}}
      [] i = 8 -> {FormulaN("f1", <<TsN(M1, "q", None, None, ListN(<<x>>)), T0>>, None, None, ListN(<<y, x>>)) : x \in NearG, y \in NearG}
      [] i = 9 -> {Fo(f, <<x, y>>) : f \in {"plus", "divide", "f1"}, x \in NearT, y \in NearT}
      [] i = 10 -> {Fo("f2", <<T0, x, y>>) : x \in NearT, y \in NearT}
      [] i = 11 -> {Fo("f2", <<x, y, T0, y, x>>) : x \in NearT, y \in NearT}
      [] i = 12 -> {Fo("minus", <<Fo("plus", <<x, y>>), Fo("plus", <<x, y>>)>>) : x \in NearT, y \in NearT}
NNear == 12
NearText(i) == {ExprMql(x) : x \in {y \in NearX(i) : ExprMqlErrs(y) = {}}}
\* Rows: one element among many, at every place; chains and towers
RowLens == IF Deep THEN {2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 32, 33} ELSE {2, 3, 4, 5, 8, 9, 12, 17}
RowAt == {<<n, p>> \in RowLens \X (1..33) : p <= n /\ (p <= 5 \/ p >= n - 1)}
Row(x, np, f) == [i \in 1..np[1] |-> IF i = np[2] THEN x ELSE f]
Few == {np \in RowAt : np[1] <= 9}
Fk(v) == CondN(Col("k"), "EQ", Str(v))
RowF == {CondN(Col("k"), "NEQ", Str("v")), CondN(Col("k"), "IN", ListN(<<Str("v"), Str("w")>>)), CondN(Col("j"), "LIKE", Str("v*")), OrN(<<Fk("v"), CondN(Col("j"), "EQ", Str("w"))>>), AndN(<<Fk("v"), Fk("x")>>), Fk("y z"), Fk("v")}
RECURSIVE Chain(_, _, _, _)
Chain(o, r, i, left) == IF i = 1 THEN r[1] ELSE IF left THEN Fo(o, <<Chain(o, r, i - 1, left), r[i]>>) ELSE Fo(o, <<r[i], Chain(o, r, i - 1, left)>>)
RECURSIVE Tower(_, _, _)
Tower(b, x, n) == IF n = 0 THEN x ELSE Bl(IF b THEN 1 ELSE 2, <<Fk("t" \o ToString(n)), Tower(~b, x, n - 1)>>)
RECURSIVE Stack(_, _, _)
Stack(f, x, n) == IF n = 0 THEN x ELSE Fo(f, <<Stack(f, x, n - 1)>>)
RowX(i) ==
    CASE i = 1 -> {TsF(Row(x, np, Fk("a"))) : x \in RowF, np \in RowAt}
      [] i = 2 -> {TsF(<<AndN(Row(x, np, Fk("a")))>>) : x \in RowF, np \in RowAt}
      [] i = 3 -> {TsF(<<OrN(Row(x, np, Fk("a")))>>) : x \in RowF, np \in RowAt}
      [] i = 4 -> {FormulaN("plus", <<T0, IntN(1)>>, None, ListN(Row(x, np, OrN(<<Fk("a"), Fk("b")>>))), None) : x \in RowF, np \in RowAt}
      [] i = 5 -> {TsN(M1, "sum", None, None, ListN(Row(Col("x.y"), np, Col("g")))) : np \in RowAt} \cup {FormulaN("f1", <<T0>>, None, None, ListN(Row(Col("x.y"), np, Col("g")))) : np \in RowAt}
      [] i = 6 -> {TsN(M1, "q", ListN(Row(x, np, f)), None, None) : x \in {Str("s"), Flt("0.5"), IntN(2), Str("a b")}, f \in {IntN(1), Str("p")}, np \in RowAt}
      [] i = 7 -> {FormulaN("f1", <<T0, T0>>, ListN(Row(x, np, f)), None, None) : x \in {Str("s"), Flt("0.5"), IntN(2), Str("a b")}, f \in {IntN(1), Str("p")}, np \in RowAt}
      [] i = 8 -> {Fo("f1", Row(x, np, f)) : x \in {TF, T2, Flt("1.5"), Fo("plus", <<T0, IntN(1)>>), Fo("negate", <<T0>>), Fo("f2", <<T0, IntN(3)>>)}, f \in {T0, IntN(1)}, np \in RowAt}
      [] i = 9 -> {Chain(o, Row(x, np, T0), np[1], l) : o \in Ops4, x \in {TF, IntN(2), Fo("plus", <<T0, T2>>), Fo("negate", <<T0>>)}, np \in Few, l \in {TRUE, FALSE}}
      [] i = 10 -> {TsF(<<CondN(Col("k"), o, ListN(Row(Str(v), np, Str("a"))))>>) : o \in {"IN", "NOT_IN"}, v \in {"b", "a b", "", "a\"b", "AND"}, np \in RowAt}
      [] i = 11 -> {TsF(<<Tower(b, x, n)>>) : b \in {TRUE, FALSE}, x \in RowF, n \in 1..8}
      [] i = 12 -> {Stack(f, x, n) : f \in {"negate", "f1"}, x \in {T0, TF, Fo("plus", <<T0, IntN(1)>>)}, n \in 1..8} \cup {Fo("plus", <<IntN(1), Stack("negate", T0, n)>>) : n \in 1..6} \cup {Fo("multiply", <<Stack("negate", T0, n), Stack("f1", TF, n)>>) : n \in 1..6}
NRow == 12
RowText(i) == {ExprMql(x) : x \in {y \in RowX(i) : ExprMqlErrs(y) = {}}}
\* values: every short string over a treacherous alphabet, quoted and bare
Tricky == Strings({"a", "*", "\\", " ", "\""}, 0, IF Deep THEN 4 ELSE 3)
Tricky2 == Strings({"n", "\\", "*", "'", ","}, 1, IF Deep THEN 4 ELSE 3)
InQuotes(S) == {"sum(m){k:\"" \o v \o "\"}" : v \in S}
QuotedIn(S) == {"sum(m){k:[x, \"" \o v \o "\"]}" : v \in S}
QuotedNot(S) == {"sum(m){!k:\"" \o v \o "\" AND j:x*}" : v \in S}
QuotedPar(S) == {"q(\"" \o v \o "\", 1)(m)" : v \in S}
NoQuotes(S) == {"sum(m){k:" \o v \o "}" : v \in S}
TrickyTexts(i) == CASE i = 1 -> InQuotes(Tricky) [] i = 2 -> InQuotes(Tricky2) [] i = 3 -> QuotedIn(Tricky) [] i = 4 -> QuotedNot(Tricky) [] i = 5 -> QuotedPar(Tricky) [] i = 6 -> NoQuotes(Tricky) [] i = 7 -> NoQuotes(Tricky2) [] i = 8 -> QuotedPar(Tricky2)
NTricky == 8
ValX(i) == LET S == Strings({"a", "*", " ", "\"", "'"}, 0, 3) IN CASE i = 1 -> {TsF(<<CondN(Col("k"), o, Str(v))>>) : o \in {"EQ", "LIKE"}, v \in S} [] i = 2 -> {TsF(<<CondN(Col("k"), "NOT_IN", ListN(<<Str("x"), Str(v)>>))>>) : v \in S} [] i = 3 -> {TsN(M1, "q", ListN(<<Str(v), IntN(1)>>), None, None) : v \in S}
NVal == 3
RT(S) == {C("roundtrip", <<x>>) : x \in S}
RP(S) == {C("reparse", <<Str(s)>>) : s \in S}

------------------------------------------------------------------------------
(* C12: the whole metrics query *)
Dt0 == DtN(2024, 1, 1, 0, 0, 0, 0, None)
Dt1 == DtN(2024, 1, 2, 3, 4, 5, 0, None)
Ro(i, t, o, g) == N("rollup", "", <<i, t, o, g>>)
Sc(o, p, u) == N("scope", "", <<ListN(o), ListN(p), u>>)
Mq(x, s, e, r, sc, l, o, ex, mp) == N("mq", "", <<x, s, e, r, sc, l, o, ex, mp>>)
R0 == Ro(IntN(60), None, None, IntN(60))
S0 == Sc(<<IntN(1)>>, <<IntN(11)>>, Str("uc"))
Map0 == DictN(<<Kv("a.b", Str("d:t/x@s")), Kv("d:t/x@s", IntN(12))>>)
MqX(x) == Mq(x, Dt0, Dt1, R0, S0, None, None, None, Map0)
Rollups == {Ro(None, t, o, IntN(g)) : t \in {True, False}, o \in {None, DirN("ASC"), DirN("DESC")}, g \in {10, 60, 3600, 86400}} \cup {Ro(IntN(i), t, None, IntN(g)) : i \in {10, 60, 61, 3600, 86400, 100000}, t \in {None, True, False}, g \in {10, 60, 3600, 86400}}
GoodR == {r \in Rollups : RollupErrs(r) = {}}
Lims == {None} \cup {OneN("limit", IntN(i)) : i \in {1, 10, 10000}}
Offs == {None} \cup {OneN("offset", IntN(i)) : i \in {0, 1, 100000}}
Exs == {None, OneN("extrap", True), OneN("extrap", False)}
Scopes == {Sc(o, p, u) : o \in {<<>>, <<IntN(1)>>, <<IntN(2), IntN(1), IntN(2)>>}, p \in {<<>>, <<IntN(0)>>, <<IntN(11), IntN(10)>>}, u \in {None, Str(""), Str("transactions"), Str("a\"b\n")}}
Dts == {DtN(2024, 1, 1, 0, 0, 0, us, off) : us \in {0, 1, 120000, 999999}, off \in {None, IntN(0), IntN(3600), IntN(-19800), IntN(20700)}} \cup {DtN(1, 1, 1, 0, 0, 0, 0, None), DtN(9999, 12, 31, 23, 59, 59, 999999, None), DtN(2023, 7, 4, 9, 5, 6, 0, IntN(0))}
Maps == {DictN(<<>>), Map0, DictN(<<Kv("a", None)>>), DictN(<<Kv("a", DictN(<<Kv("b", ListN(<<IntN(1), True>>))>>))>>), DictN(<<Kv("", Str("x")), Kv("é", Flt("1.5"))>>)}
SomeX == {T0, TFG, Fo("plus", <<T0, IntN(1)>>), Str("sum(a.b){x:y} by g"), Str("(sum(a) + 1) * 2")}
Ctx1 == {Mq(x, Dt0, Dt1, R0, S0, l, o, e, mp) : x \in {T0, Str("sum(a.b)")}, l \in Lims, o \in Offs, e \in Exs, mp \in {Map0, DictN(<<>>)}}
Ctx2 == {Mq(T0, Dt0, Dt1, r, s, l, None, e, Map0) : r \in GoodR, s \in {S0, Sc(<<IntN(2), IntN(1)>>, <<>>, None)}, l \in {None, OneN("limit", IntN(5))}, e \in {None, OneN("extrap", True)}}
Ctx3 == {Mq(T0, s, e, R0, S0, None, None, None, DictN(<<>>)) : s \in Dts, e \in Dts} \cup {Mq(x, Dt0, Dt1, R0, s, None, OneN("offset", IntN(0)), None, m) : x \in SomeX, s \in Scopes, m \in Maps}
\* filters MQL can and cannot write
RhsP == {None, True, IntN(1), IntN(-1), Flt("0.5"), Str("v"), Str("v*"), Str("a\"b"), Str("a\\b"), Str("a\nb"), Str("it's"), Bytes("v"), Dt0, DateN(2024, 1, 1), Col("c"), Fn("f", <<>>), Fn("f", <<Col("a")>>), Cfn("f", ListN(<<IntN(1)>>), ListN(<<Col("a")>>), None), ListN(<<>>), ListN(<<Str("v")>>), ListN(<<Str("v"), IntN(1)>>), TupN(<<Str("v"), Str("w")>>), TupN(<<Str("v")>>), TupN(<<>>), ListN(<<Col("c")>>), ListN(<<Fn("f", <<>>)>>), ListN(<<ListN(<<Str("v")>>)>>), TupN(<<TupN(<<IntN(1), IntN(2)>>)>>)}
LhsP == {Col("k"), Col("tags[x]"), Col("a.b"), Fn("f", <<Col("k")>>), FnA("f", <<>>, "al"), Cfn("f", ListN(<<IntN(1)>>), None, None)}
AnyC == {CondN(l, o, r) : l \in {Col("k"), Fn("f", <<Col("k")>>)}, o \in OpNames \ UnaryOps, r \in RhsP} \cup {CondN(l, o, None) : l \in LhsP, o \in UnaryOps} \cup {CondN(l, o, r) : l \in LhsP, o \in {"EQ", "IN"}, r \in {Str("v"), ListN(<<Str("v")>>)}}
GtC == CondN(Col("k"), "GT", IntN(1))
BadIn == {Bl(k, <<B3[1], GtC>>) : k \in 1..4} \cup {Bl(k, <<GtC, B3[1]>>) : k \in 1..4} \cup {Bl(k, <<B3[1], Bl(l, <<B3[2], GtC>>)>>) : k \in 1..4, l \in 1..4}
Pl(c, w) == CASE w = 1 -> TsF(<<c>>) [] w = 2 -> FormulaN("plus", <<T0, IntN(1)>>, None, ListN(<<B3[2], c>>), None) [] w = 3 -> Fo("f1", <<IntN(1), Fo("negate", <<TsF(<<B3[1], c>>)>>)>>)
Opts == {None, ListN(<<>>)}
Empties == {TsN(M1, "sum", a, f, g) : a \in Opts, f \in Opts, g \in Opts} \cup {FormulaN(n, <<T0, IntN(1)>>, a, f, g) : n \in {"plus", "f1"}, a \in Opts \cup {ListN(<<IntN(3)>>)}, f \in Opts, g \in Opts}
GbA == {TsN(M1, "sum", None, None, ListN(g)) : g \in Seqs({Col("a"), AliasedN(Col("b"), Str("c")), AliasedN(Col("a"), None)}, 1, 2)}
CtxOps == {"serialize", "print", "str"}
Ser(S) == {C("serialize", <<x>>) : x \in S}
------------------------------------------------------------------------------
Quick(s) == IF Deep THEN P(Edits(s, Toks) \cup Replaced(s, Toks) \cup Swaps(s)) ELSE P(Edits(s, {";", "(", ")", " ", ",", "\"", "a", "*", "-", "}", " Or ", "1"}) \cup Replaced(s, {}) \cup Swaps(s))
Own == CASE Prop = "C11" -> NB + 8 + NNear + NTricky [] Prop = "C10" -> 10 + NNear + NVal [] Prop = "C12" -> 9 + NNear + NVal
McGroups == Own + NRow + 1
RowCases(i) == CASE Prop = "C11" -> P(RowText(i)) [] Prop = "C10" -> RT(RowX(i)) [] Prop = "C12" -> Ser({MqX(x) : x \in RowX(i)})
McCases(g) ==
    CASE g = Own + NRow + 1 -> (IF Prop = "C11" THEN P(NumTexts) ELSE IF Prop = "C10" THEN RP(NumTexts) ELSE Ser({MqX(Str(t)) : t \in NumTexts}))
      [] g > Own -> RowCases(g - Own)
      [] Prop = "C11" -> (CASE g <= NB -> Quick(Base[g])
                            [] g = NB + 1 -> P(Ar2)
                            [] g = NB + 2 -> P(Ar3)
                            [] g = NB + 3 -> P(Ar4 \cup Br \cup Nums)
                            [] g = NB + 4 -> P(Two2)
                            [] g = NB + 5 -> P(Three3 \cup Four4)
                            [] g = NB + 6 -> P(KV)
                            [] g = NB + 7 -> P(At1)
                            [] g = NB + 8 -> P(MP)
                            [] g > NB + 8 /\ g <= NB + 8 + NNear -> P(NearText(g - NB - 8))
                            [] g > NB + 8 + NNear -> P(TrickyTexts(g - NB - 8 - NNear)))
      [] Prop = "C10" -> (CASE g = 1 -> RT(D1(LeafS))
                            [] g = 2 -> RT(D2)
                            [] g = 3 -> RT(D2u)
                            [] g = 4 -> RT(D3 \cup (IF Deep THEN Deep3 ELSE {}))
                            [] g = 5 -> RT({TsF(<<c>>) : c \in Cnd1})
                            [] g = 6 -> RT({TsF(l) : l \in FLists} \cup {FormulaN("f1", <<T0>>, None, ListN(l), GrA) : l \in FLists} \cup {FormulaN("negate", <<TsF(l)>>, None, ListN(l), None) : l \in FLists})
                            [] g = 7 -> RT(Parts)
                            [] g = 8 -> RP(Ar2 \cup Ar4 \cup Br \cup Nums)
                            [] g = 9 -> RP(At1)
                            [] g = 10 -> RP(Three3 \cup KV)
                            [] g > 10 /\ g <= 10 + NNear -> RT(NearX(g - 10))
                            [] g > 10 + NNear -> RT(ValX(g - 10 - NNear)))
      [] Prop = "C12" -> (CASE g = 1 -> {C(op, <<q>>) : op \in CtxOps, q \in Ctx1}
                            [] g = 2 -> Ser(Ctx2)
                            [] g = 3 -> Ser(Ctx3)
                            [] g = 4 -> Ser({MqX(Pl(c, w)) : c \in AnyC, w \in 1..2})
                            [] g = 5 -> {C(op, <<MqX(Pl(c, w))>>) : op \in CtxOps, c \in BadIn \cup Bools, w \in 1..3}
                            [] g = 6 -> {C(op, <<MqX(x)>>) : op \in CtxOps, x \in Empties \cup GbA}
                            [] g = 7 -> Ser({MqX(x) : x \in D2u \cup D1(LeafS)})
                            [] g = 8 -> Ser({MqX(x) : x \in Parts} \cup {MqX(TsF(<<c>>)) : c \in Cnd1})
                            [] g = 9 -> Ser({MqX(Str(s)) : s \in Ar2 \cup Br} \cup {MqX(TsF(l)) : l \in FLists}) \cup {C("print", <<MqX(TsF(l))>>) : l \in FLists}
                            [] g > 9 /\ g <= 9 + NNear -> Ser({MqX(x) : x \in NearX(g - 9)})
                            [] g > 9 + NNear -> Ser({MqX(x) : x \in ValX(g - 9 - NNear)}))

------------------------------------------------------------------------------
(* Laws *)
X == last[2][1]
Pm(s) == ParseMql(s)
\* an expression that MQL can write reads back as itself
LawRoundtrip == (Done /\ last[1] = "roundtrip" /\ OpDefined("roundtrip", last[2]) /\ PlainNode(X)) => \A t \in MqlTexts(X) : LET p == Pm(t) IN ~IsBad(p) /\ Equivalent(p, X)
\* white space around a sentence and brackets around it mean nothing
LawSpace == (Done /\ Prop = "C11" /\ G > NB /\ ~ContainsStr(X.v, "@")) => LET p == Pm(X.v) IN ~IsBad(p) => Pm(" \n" \o X.v \o "\t ") = p /\ Pm("( " \o X.v \o " )") = p
\* what is accepted can be written down and read again, and writing is then stable
LawStable == (Done /\ last[1] = "reparse" /\ OpDefined("reparse", last[2]) /\ PlainText(X.v)) => LET p == Pm(X.v)  t == ExprMql(p)  q == Pm(t) IN ExprMqlErrs(p) = {} => (~IsBad(q) /\ Equivalent(q, p) /\ ExprMql(Pm(ExprMql(q))) = ExprMql(q))
\* precedence: a o b p c
Rank == ("+" :> 1) @@ ("-" :> 1) @@ ("*" :> 2) @@ ("/" :> 2)
LawPrecedence == (Done /\ Prop = "C11" /\ X = Str("sum(a)+2")) =>
    \A o \in Op3, p \in Op3 : Pm("sum(a)" \o o \o "2" \o p \o "max(b)") = (IF Rank[p] > Rank[o] THEN Pm("sum(a)" \o o \o "(2" \o p \o "max(b))") ELSE Pm("(sum(a)" \o o \o "2)" \o p \o "max(b)"))
Laws == LawRoundtrip /\ LawSpace /\ LawStable /\ LawPrecedence
==============================================================================
