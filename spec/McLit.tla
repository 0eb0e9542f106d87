-------------------------------- MODULE McLit --------------------------------
(***************************************************************************)
(* C02: every short string over the characters that matter to quoting, in  *)
(* every literal position; long strings; instants at calendar boundaries    *)
(* in many time zones; integers and floats of all magnitudes.               *)
(***************************************************************************)
EXTENDS Mc

Tricky == {"'", "\\", "\n", "a", "\""}
Texts == Strings(Tricky, 0, IF Deep THEN 5 ELSE 4)
OtherChars == StrSet("`%_{}()[]\t\r\f ,;:-/*#$!?&|<>=~^.+0")
              \cup SetOf(CharTable.uniword) \cup SetOf(CharTable.unispace) \cup SetOf(CharTable.uniother) \cup SetOf(CharTable.sepctl)
Singles == {c : c \in OtherChars} \cup {c \o "'" : c \in OtherChars} \cup {"\\" \o c : c \in OtherChars} \cup {"a" \o c \o "\n" : c \in OtherChars}
Words == {"NULL", "TRUE", "toDateTime('x')", "' OR 1 = 1 --", "'; DROP", "\\n", "\\'", "n", "\\\\n", "a' AND b = 'c", "}", "{ MATCH", "${x}", "%s", "{0}", "2021-01-01T00:00:00"}
Lengths == {15, 16, 63, 64, 127, 128, 255, 256, 257, 511, 512, 999, 1000, 1001, 1023, 1024, 1025, 4096, 5000}
Long == {Rep("a", n) \o x \o Rep("b", 3) : n \in Lengths, x \in {"'", "\\", "\n", "'\\\n"}} \cup {x \o Rep("a", n) \o x : n \in Lengths, x \in {"'", "\\"}}
        \cup {Rep("'", n) : n \in {5, 10, 64, 256, 1000}} \cup {Rep("\\", n) : n \in {5, 6, 64, 1001}} \cup {Rep("\n", n) : n \in {5, 100}} \cup {Rep("\\'", n) : n \in {3, 50}}
\* every pair of special characters
Marks == StrSet("`%_{}()[]\t\r\f\n'\" ,;:-/*#$!?&|<>=~^.+0ant") \cup {"\\"}
Twos == {a \o b : a \in Marks, b \in Marks}
AllTexts == Texts \cup Singles \cup Words \cup Long \cup Twos

\* where a literal can stand
A == Col("a")
Spots(x) == << Q1(E0, "where", ListN(<<CondN(A, "EQ", x)>>)), Q1(E0, "having", ListN(<<CondN(A, "NEQ", x)>>)), Qs(E0, <<Fn("f1", <<x, A>>)>>), Qs(E0, <<Cfn("f1", ListN(<<A, x>>), ListN(<<A>>), None)>>),
    Q1(E0, "where", ListN(<<CondN(A, "IN", ListN(<<x, IntN(1)>>))>>)), Q1(E0, "where", ListN(<<CondN(A, "IN", TupN(<<Str("z"), x>>))>>)),
    Q1(E0, "where", ListN(<<OrN(<<CondN(A, "EQ", x), CondN(A, "EQ", Str("q"))>>)>>)), Q1(E0, "where", ListN(<<AndN(<<CondN(A, "LIKE", x), CondN(A, "EQ", Str("q"))>>)>>)),
    Qs(E0, <<Fn("f1", <<ListN(<<TupN(<<x>>)>>)>>)>>), Q1(E0, "orderby", ListN(<<OrderN(Fn("f1", <<x>>), "ASC")>>)), Q1(E0, "groupby", ListN(<<Fn("f1", <<x>>)>>)),
    Qs(E0, <<Fn("f1", <<LamN(<<Str("i")>>, Fn("f2", <<x>>))>>)>>), Q1(E0, "where", ListN(<<CondN(Fn("f1", <<Fn("f2", <<x>>)>>), "EQ", x)>>)),
    Qs(Q1(E0, "where", ListN(<<CondN(A, "EQ", x)>>)), <<Count>>), Q1(E0, "where", ListN(<<CondN(A, "EQ", x), CondN(Col("b"), "EQ", x)>>)) >>
NSpots == Len(Spots(None))
Slots == SetToSeq(AllTexts)
Offs == {None, IntN(0), IntN(1), IntN(-1), IntN(3600), IntN(-3600), IntN(19800), IntN(-12600), IntN(50400), IntN(-43200), IntN(86399), IntN(-86399), IntN(45), IntN(20700)}
Moments == {<<2024, 2, 29, 0, 0, 0>>, <<2024, 3, 1, 0, 0, 0>>, <<2023, 3, 1, 1, 30, 0>>, <<2023, 12, 31, 23, 59, 59>>, <<2024, 1, 1, 0, 0, 0>>, <<2000, 2, 28, 23, 0, 0>>,
            <<1900, 3, 1, 0, 30, 0>>, <<2021, 6, 15, 12, 0, 0>>, <<1970, 1, 1, 0, 0, 0>>, <<9999, 12, 31, 0, 0, 0>>, <<1000, 1, 2, 3, 4, 5>>, <<999, 9, 30, 9, 8, 7>>, <<2, 1, 1, 5, 5, 5>>, <<2024, 11, 30, 20, 0, 1>>}
Micros == {0, 1, 10, 123000, 999999}
Dts == {DtN(m[1], m[2], m[3], m[4], m[5], m[6], us, o) : m \in Moments, us \in Micros, o \in Offs}
Dates == {DateN(m[1], m[2], m[3]) : m \in Moments}
Digits(n) == Rep("9", n)
Ints == {IntS(x) : x \in {"0", "1", "-1", "2147483647", "2147483648", "-2147483648", "4294967296", "9007199254740993", "9223372036854775807", "9223372036854775808",
                          "18446744073709551615", "18446744073709551616", "-9223372036854775809", "100000000000000000000000", "1000000", "999999", "1000"}} \cup {IntS(Digits(n)) : n \in 1..40}
Floats == {Flt(x) : x \in {"0.0", "-0.0", "1.0", "0.1", "-0.1", "1e-05", "0.0001", "1e-07", "1.5e-07", "5e-324", "1.7976931348623157e+308", "1e+16", "1e+22", "9007199254740992.0", "1234567890123456.0", "0.30000000000000004",
                           "3.141592653589793", "-2.5e-10", "123456.789", "1e+100", "0.001", "100.0", "1.23e+20"}}
Basic == Ints \cup Floats \cup Dates \cup {None, True, False}
McGroups == 8
Spot(x, i) == Spots(x)[i]
Str1(s, i) == IF i = 2 * (i \div 2) THEN Str(s) ELSE Bytes(s)
Per == (Len(Slots) \div 5) + 1
Mod(i, n) == i - n * (i \div n)
Clip(hi) == IF hi > Len(Slots) THEN Len(Slots) ELSE hi
McCases(g) ==
    CASE g <= 5 -> {C(IF Mod(i, 7) = 0 THEN "print" ELSE "serialize", <<Spot(Str1(Slots[i], i), 1 + Mod(i, NSpots))>>) : i \in ((g - 1) * Per + 1)..Clip(g * Per)}
      [] g = 6 -> {C("serialize", <<Spot(x, 1)>>) : x \in Dts}
      [] g = 7 -> {C("serialize", <<Spot(x, i)>>) : x \in Basic, i \in 1..NSpots}
      [] g = 8 -> {C("serialize", <<Spot(Str(s), i)>>) : s \in Words \cup {"'", "\\", "\n", "a", "", "\\'", "'\\"}, i \in 1..NSpots} \cup {C("serialize", <<Spot(d, i)>>) : d \in {x \in Dts : x.c[7] = IntN(1) /\ x.c[1] = IntN(2024)}, i \in 1..NSpots}
             \cup {C("serialize", <<Spot(N("badbytes", s, <<>>), i)>>) : s \in {"", "a"}, i \in 1..NSpots}

------------------------------------------------------------------------------
(* Laws *)
\* Reading a literal: position after the closing quote, and its content
RECURSIVE LitEnd(_, _)
LitEnd(t, i) == IF i > Len(t) THEN 0 ELSE IF Ch(t, i) = "'" THEN i ELSE IF Ch(t, i) = "\\" THEN LitEnd(t, i + 2) ELSE LitEnd(t, i + 1)
RECURSIVE Read(_, _)
Read(t, i) == IF i > Len(t) THEN ""
              ELSE IF Ch(t, i) = "\\" THEN (IF Ch(t, i + 1) = "n" THEN "\n" ELSE Ch(t, i + 1)) \o Read(t, i + 2)
              ELSE Ch(t, i) \o Read(t, i + 1)
\* a string literal ends where its closing quote is, holds no newline and reads back as the string
LawQuote == (last # <<>> /\ last[1] = "input" /\ G <= 5) =>
    \A i \in (((G - 1) * Per) + 1)..Clip(G * Per) :
        LET s == Slots[i]
            t == Quote(s, Snql(FALSE))
        IN Len(s) < 300 => LitEnd(t, 2) = Len(t) /\ Read(SubSeq(t, 2, Len(t) - 1), 1) = s /\ ~AnyIn(t, {"\n"})
\* the same instant whatever the time zone: shifting the clock and the offset together changes nothing
Instant(n) == UtcIso(n)
LawInstant == (Done /\ G = 6) =>
    LET x == last[2][1].c[5].c[1].c[3]
    IN (~IsNone(x.c[8]) /\ I(x.c[8]) = 3600 /\ I(x.c[4]) < 23) =>
         Instant(x) = Instant([x EXCEPT !.c = [x.c EXCEPT ![4] = IntN(I(x.c[4]) + 1), ![8] = IntN(7200)]])
Laws == LawQuote /\ LawInstant
==============================================================================
