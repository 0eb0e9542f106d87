------------------------------ MODULE SdkText ------------------------------
(***************************************************************************)
(* Text: the character classes, decimal arithmetic on digit strings and    *)
(* string helpers the rest of the specification is written with.  TLC      *)
(* represents a string as a sequence of UTF-16 units; every operator below *)
(* splits strings in halves instead of consuming them one character at a   *)
(* time, so that no long chain of intermediate strings is created.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT CharsFile      \* chars.json: how the non-ASCII characters in the domain classify

CharTable == JsonDeserialize(CharsFile)
SetOf(seq) == {seq[i] : i \in 1..Len(seq)}

Ch(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))
Chars(s) == [i \in 1..Len(s) |-> Ch(s, i)]

StrSet(s) == {Ch(s, i) : i \in 1..Len(s)}

Lower == StrSet("abcdefghijklmnopqrstuvwxyz")
Upper == StrSet("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
Digit == StrSet("0123456789")
Alpha == Lower \cup Upper
AlnumU == Alpha \cup Digit \cup {"_"}                 \* [a-zA-Z0-9_]
UniWord == SetOf(CharTable.uniword)
Word == AlnumU \cup UniWord                           \* \w
WsRe == {" ", "\t", "\n", "\r", "\f"} \cup SetOf(CharTable.unispace)   \* \s in the grammar: Unicode White_Space
Space == WsRe \cup SetOf(CharTable.sepctl)                             \* what Python's strip() removes

AllIn(s, S) == \A i \in 1..Len(s) : Ch(s, i) \in S
AnyIn(s, S) == \E i \in 1..Len(s) : Ch(s, i) \in S

\* First position >= i holding a character outside / inside S (Len+1 if none).
RECURSIVE Run(_, _, _)
Run(s, i, S) == IF i > Len(s) THEN i ELSE IF Ch(s, i) \notin S THEN i ELSE Run(s, i + 1, S)
RECURSIVE Until(_, _, _)
Until(s, i, S) == IF i > Len(s) THEN i ELSE IF Ch(s, i) \in S THEN i ELSE Until(s, i + 1, S)

StartsAt(s, i, t) == i + Len(t) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(t) - 1) = t
StartsWith(s, t) == StartsAt(s, 1, t)
EndsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
ContainsStr(s, t) == \E i \in 1..(Len(s) - Len(t) + 1) : StartsAt(s, i, t)

RECURSIVE StripL(_, _)
StripL(s, S) == IF s # "" /\ Ch(s, 1) \in S THEN StripL(From(s, 2), S) ELSE s
RECURSIVE StripR(_, _)
StripR(s, S) == IF s # "" /\ Ch(s, Len(s)) \in S THEN StripR(SubSeq(s, 1, Len(s) - 1), S) ELSE s
Strip(s, S) == StripR(StripL(s, S), S)

\* Replace every character c in DOMAIN m by m[c].
RECURSIVE MapChars(_, _)
MapChars(s, m) ==
    IF ~AnyIn(s, DOMAIN m) THEN s
    ELSE IF Len(s) = 1 THEN m[s]
    ELSE LET h == Len(s) \div 2 IN MapChars(SubSeq(s, 1, h), m) \o MapChars(From(s, h + 1), m)

\* The concatenation of the strings ss[lo..hi] with sep in between.
RECURSIVE JoinRange(_, _, _, _)
JoinRange(ss, sep, lo, hi) ==
    IF lo > hi THEN ""
    ELSE IF lo = hi THEN ss[lo]
    ELSE LET m == (lo + hi) \div 2
         IN JoinRange(ss, sep, lo, m) \o sep \o JoinRange(ss, sep, m + 1, hi)
JoinStr(ss, sep) == JoinRange(ss, sep, 1, Len(ss))

RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)

UpperOf == [c \in Lower |-> CHOOSE u \in Upper :
              \E i \in 1..26 : Ch("abcdefghijklmnopqrstuvwxyz", i) = c
                            /\ Ch("ABCDEFGHIJKLMNOPQRSTUVWXYZ", i) = u]
ToUpper(s) == MapChars(s, UpperOf)

SelectSeqBy(s, Test(_)) == SelectSeq(s, Test)
MapSeq(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
RECURSIVE ConcatAll(_)
ConcatAll(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o ConcatAll(Tail(ss))
UnionAll(s, F(_)) == UNION {F(s[i]) : i \in 1..Len(s)}

------------------------------------------------------------------------------
(* Decimal integers of any size, written as digit strings with an optional  *)
(* sign ("-0" does not occur).                                              *)
DigitVal == [d \in Digit |-> CHOOSE n \in 0..9 : Ch("0123456789", n + 1) = d]
RECURSIVE Nat10(_)
Nat10(s) == IF s = "" THEN 0 ELSE 10 * Nat10(SubSeq(s, 1, Len(s) - 1)) + DigitVal[Ch(s, Len(s))]
Int10(s) == IF StartsWith(s, "-") THEN 0 - Nat10(From(s, 2)) ELSE Nat10(s)
Neg10(s) == StartsWith(s, "-")

RECURSIVE DigitsLess(_, _, _)     \* same length
DigitsLess(a, b, i) ==
    IF i > Len(a) THEN FALSE
    ELSE IF Ch(a, i) = Ch(b, i) THEN DigitsLess(a, b, i + 1)
    ELSE DigitVal[Ch(a, i)] < DigitVal[Ch(b, i)]
NatLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE DigitsLess(a, b, 1)
Less10(a, b) ==
    CASE Neg10(a) /\ Neg10(b) -> NatLess(From(b, 2), From(a, 2))
      [] Neg10(a) /\ ~Neg10(b) -> TRUE
      [] ~Neg10(a) /\ Neg10(b) -> FALSE
      [] OTHER -> NatLess(a, b)

Pad(n, w) == LET t == ToString(n) IN Zeros(w - Len(t)) \o t

------------------------------------------------------------------------------
(* Floats are carried as Python's repr.  Finite values only.                *)
ExpPos(r) == Until(r, 1, {"e"})
HasExp(r) == ExpPos(r) <= Len(r)
\* Positional form of a repr with an exponent: 1.5e-07 -> 0.00000015, 1e+16 -> 10000000000000000
Positional(r) ==
    IF ~HasExp(r) THEN r
    ELSE LET sgn == IF Neg10(r) THEN "-" ELSE ""
             u == IF Neg10(r) THEN From(r, 2) ELSE r
             p == ExpPos(u)
             mant == SubSeq(u, 1, p - 1)
             dot == Until(mant, 1, {"."})
             ip == SubSeq(mant, 1, dot - 1)
             fp == IF dot > Len(mant) THEN "" ELSE From(mant, dot + 1)
             es == From(u, p + 1)
             en == IF StartsWith(es, "-") THEN 0 - Nat10(From(es, 2))
                   ELSE IF StartsWith(es, "+") THEN Nat10(From(es, 2)) ELSE Nat10(es)
             ds == ip \o fp
             point == Len(ip) + en            \* digits before the decimal point
         IN sgn \o (IF point <= 0 THEN "0." \o Zeros(0 - point) \o ds
                    ELSE IF point >= Len(ds) THEN ds \o Zeros(point - Len(ds))
                    ELSE SubSeq(ds, 1, point) \o "." \o From(ds, point + 1))
FracPart(r) == LET d == Until(r, 1, {"."}) IN IF d > Len(r) THEN "" ELSE From(r, d + 1)
FloatIsNeg(r) == Neg10(r)
FloatIsZero(r) == LET p == ExpPos(r) IN AllIn(SubSeq(r, 1, p - 1), {"0", ".", "-"})

==============================================================================
