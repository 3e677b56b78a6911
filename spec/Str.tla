-------------------------------- MODULE Str --------------------------------
(* Strings as TLC sees them: native strings with Len, SubSeq and \o.          *)
(* Characters are strings of length one; only printable ASCII has an order.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
UpperS == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerS == "abcdefghijklmnopqrstuvwxyz"

At(s, i) == SubSeq(s, i, i)

OrdF == [c \in {At(Ascii, i) : i \in 1..Len(Ascii)} |-> CHOOSE i \in 1..Len(Ascii) : At(Ascii, i) = c]
Ord(c) == IF c \in DOMAIN OrdF THEN OrdF[c] ELSE 0

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsDigit(c) == c \in Digits
DigitVal == [c \in Digits |-> OrdF[c] - OrdF["0"]]
DigitChar == [n \in 0..9 |-> CHOOSE c \in Digits : DigitVal[c] = n]
UpperSet == {At(UpperS, i) : i \in 1..26}
LowerSet == {At(LowerS, i) : i \in 1..26}
Letters == UpperSet \cup LowerSet
Alnum == Letters \cup Digits
HexSet == Digits \cup {"a","b","c","d","e","f","A","B","C","D","E","F"}
ToUpperF == [c \in LowerSet |-> CHOOSE u \in UpperSet : OrdF[c] - OrdF["a"] = OrdF[u] - OrdF["A"]]
ToLowerF == [c \in UpperSet |-> CHOOSE u \in LowerSet : OrdF[u] - OrdF["a"] = OrdF[c] - OrdF["A"]]

UpC(c) == IF c \in LowerSet THEN ToUpperF[c] ELSE c
LowC(c) == IF c \in UpperSet THEN ToLowerF[c] ELSE c

RECURSIVE MapStr(_, _, _)
MapStr(F(_), s, i) == IF i > Len(s) THEN "" ELSE F(At(s, i)) \o MapStr(F, s, i + 1)
Upper(s) == MapStr(UpC, s, 1)
Lower(s) == MapStr(LowC, s, 1)

\* first position >= from of character ch in s, 0 if none
RECURSIVE Find(_, _, _)
Find(s, ch, from) == IF from > Len(s) THEN 0
                     ELSE IF At(s, from) = ch THEN from ELSE Find(s, ch, from + 1)
Has(s, ch) == Find(s, ch, 1) # 0

From(s, i) == SubSeq(s, i, Len(s))
Before(s, i) == SubSeq(s, 1, i - 1)
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

\* all characters of s[i..] are in set C
RECURSIVE AllFrom(_, _, _)
AllFrom(s, C, i) == i > Len(s) \/ (At(s, i) \in C /\ AllFrom(s, C, i + 1))
All(s, C) == AllFrom(s, C, 1)
Chars(s) == {At(s, i) : i \in 1..Len(s)}

\* the non-empty comma separated pieces of s, in order
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, ch, i) ==
    IF i > Len(s) THEN <<>>
    ELSE LET p == Find(s, ch, i) IN
         IF p = 0 THEN <<From(s, i)>>
         ELSE IF p = i THEN SplitFrom(s, ch, i + 1)
         ELSE <<SubSeq(s, i, p - 1)>> \o SplitFrom(s, ch, p + 1)
Split(s, ch) == SplitFrom(s, ch, 1)

\* every piece, empty ones included
RECURSIVE Fields(_, _, _)
Fields(s, ch, i) ==
    LET p == Find(s, ch, i) IN
    IF p = 0 THEN <<From(s, i)>> ELSE <<SubSeq(s, i, p - 1)>> \o Fields(s, ch, p + 1)

\* strcmp order
RECURSIVE LexFrom(_, _, _)
LexFrom(a, b, i) ==
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE IF At(a, i) = At(b, i) THEN LexFrom(a, b, i + 1)
    ELSE Ord(At(a, i)) < Ord(At(b, i))
StrLess(a, b) == LexFrom(a, b, 1)

RECURSIVE JoinFrom(_, _, _)
JoinFrom(q, sep, i) == IF i > Len(q) THEN ""
                       ELSE (IF i = 1 THEN "" ELSE sep) \o q[i] \o JoinFrom(q, sep, i + 1)
Join(q, sep) == JoinFrom(q, sep, 1)

RECURSIVE CountChar(_, _, _)
CountChar(s, ch, i) == IF i > Len(s) THEN 0
                       ELSE (IF At(s, i) = ch THEN 1 ELSE 0) + CountChar(s, ch, i + 1)

RangeOf(q) == {q[i] : i \in 1..Len(q)}

RECURSIVE SeqMap(_, _, _)
SeqMap(F(_), q, i) == IF i > Len(q) THEN <<>> ELSE <<F(q[i])>> \o SeqMap(F, q, i + 1)

RECURSIVE Filter(_, _, _)
Filter(P(_), q, i) == IF i > Len(q) THEN <<>>
                      ELSE (IF P(q[i]) THEN <<q[i]>> ELSE <<>>) \o Filter(P, q, i + 1)

\* stable insertion sort of q under strict order Less
RECURSIVE InsertInto(_, _, _, _)
InsertInto(Less(_, _), q, x, i) ==      \* q sorted; x goes after everything not greater than it
    IF i > Len(q) THEN Append(q, x)
    ELSE IF Less(x, q[i]) THEN SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
    ELSE InsertInto(Less, q, x, i + 1)
RECURSIVE SortFrom(_, _, _, _)
SortFrom(Less(_, _), q, i, acc) ==
    IF i > Len(q) THEN acc ELSE SortFrom(Less, q, i + 1, InsertInto(Less, acc, q[i], 1))
StableSort(Less(_, _), q) == SortFrom(Less, q, 1, <<>>)

\* keep the first of each class of equal elements
RECURSIVE DedupFrom(_, _, _, _)
DedupFrom(Eq(_, _), q, i, acc) ==
    IF i > Len(q) THEN acc
    ELSE IF \E j \in 1..Len(acc) : Eq(acc[j], q[i]) THEN DedupFrom(Eq, q, i + 1, acc)
    ELSE DedupFrom(Eq, q, i + 1, Append(acc, q[i]))
Dedup(Eq(_, _), q) == DedupFrom(Eq, q, 1, <<>>)
=============================================================================
