------------------------------- MODULE Values -------------------------------
(* Conversion of argument texts to values.  A value is a tagged string:       *)
(*   "s:text"  "N" (no string)  "i:-42"  "f:-125e2" (0.125 * 10^2)  "b:0/1"    *)
(* Integers are canonical decimal texts, so that all 64 bits are exact;       *)
(* floats are canonical decimals (sign, digits, exponent).                    *)
EXTENDS Str

SUCCESS == 0      SHOULD_EXIT == 1
E_HANDLER == 4    E_ARGUMENT == 12   E_MISSING_VALUE == 13   E_MISSING_REQUIRED == 14
E_CONFLICT == 15  E_FORMAT == 16     E_EXCLUSIVE == 17       E_CHOICE == 18
E_RANGE == 19     E_AMBIGUOUS == 20  E_NO_COMMAND == 21      E_NO_VALUE == 22
E_TYPE == 23      E_INDEX == 24      E_KEY == 25             E_MEMORY == 26
E_VALUE == 29     E_OVERFLOW == 30

Ok(v) == [ok |-> TRUE, v |-> v]
Bad == [ok |-> FALSE, v |-> ""]

\* ---- integers ----
RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ At(s, 1) = "0" THEN StripZeros(From(s, 2)) ELSE s
RECURSIVE SkipSpaces(_)
SkipSpaces(s) == IF Len(s) > 0 /\ At(s, 1) = " " THEN SkipSpaces(From(s, 2)) ELSE s

MaxMag == "9223372036854775807"
MinMag == "9223372036854775808"
MagLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ ~StrLess(b, a))

\* text -> canonical decimal text of a 64-bit integer
ParseInt(t) ==
    LET s == SkipSpaces(t)
        neg == StartsWith(s, "-")
        body == IF neg \/ StartsWith(s, "+") THEN From(s, 2) ELSE s
        mag == StripZeros(body)
    IN IF body = "" \/ ~All(body, Digits) THEN Bad
       ELSE IF ~MagLeq(mag, IF neg THEN MinMag ELSE MaxMag) THEN Bad
       ELSE Ok(IF neg /\ mag # "0" THEN "-" \o mag ELSE mag)

IsNeg(c) == StartsWith(c, "-")
MagOf(c) == IF IsNeg(c) THEN From(c, 2) ELSE c
IntLess(a, b) ==
    IF IsNeg(a) /\ ~IsNeg(b) THEN TRUE
    ELSE IF ~IsNeg(a) /\ IsNeg(b) THEN FALSE
    ELSE LET x == MagOf(a) y == MagOf(b) IN
         IF IsNeg(a) THEN x # y /\ MagLeq(y, x) ELSE x # y /\ MagLeq(x, y)
IntLeq(a, b) == a = b \/ IntLess(a, b)

RECURSIVE IncMag(_)
IncMag(m) == IF m = "" THEN "1"
             ELSE LET d == At(m, Len(m)) r == SubSeq(m, 1, Len(m) - 1) IN
                  IF d = "9" THEN IncMag(r) \o "0" ELSE r \o DigitChar[DigitVal[d] + 1]
RECURSIVE DecMagR(_)
DecMagR(m) == LET d == At(m, Len(m)) r == SubSeq(m, 1, Len(m) - 1) IN
              IF d = "0" THEN DecMagR(r) \o "9" ELSE r \o DigitChar[DigitVal[d] - 1]
DecMag(m) == LET x == DecMagR(m) IN IF x = "" THEN "0" ELSE StripZeros(x)
IntInc(c) == IF IsNeg(c)
             THEN LET m == DecMag(MagOf(c)) IN IF m = "0" THEN "0" ELSE "-" \o m
             ELSE IncMag(c)

RECURSIVE Expand(_, _)
Expand(a, b) == IF a = b THEN <<"i:" \o a>> ELSE <<"i:" \o a>> \o Expand(IntInc(a), b)

\* small non-negative TLA integer of a canonical text (at most 9 digits)
RECURSIVE NatOf(_, _)
NatOf(s, acc) == IF s = "" THEN acc ELSE NatOf(From(s, 2), acc * 10 + DigitVal[At(s, 1)])
SmallInt(c) == IF Len(c) > 9 THEN (IF IsNeg(c) THEN 0 - 99999999 ELSE 99999999) ELSE IF IsNeg(c) THEN 0 - NatOf(MagOf(c), 0) ELSE NatOf(c, 0)
RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN DigitChar[n] ELSE NatText(n \div 10) \o DigitChar[n % 10]
IntText(n) == IF n < 0 THEN "-" \o NatText(0 - n) ELSE NatText(n)

\* ---- integer ranges:  a-b  a:b  ----
RECURSIVE SepFrom(_, _)
SepFrom(s, i) ==
    IF i >= Len(s) THEN 0
    ELSE IF i > 1 /\ At(s, i) \in {"-", ":"} /\ IsDigit(At(s, i - 1))
              /\ (IsDigit(At(s, i + 1)) \/ At(s, i + 1) = "-") THEN i
    ELSE SepFrom(s, i + 1)
ParseIntElem(s) ==
    LET p == SepFrom(s, 1) IN
    IF p = 0 THEN LET r == ParseInt(s) IN IF r.ok THEN Ok(<<"i:" \o r.v>>) ELSE Bad
    ELSE LET a == ParseInt(Before(s, p))
             b == ParseInt(From(s, p + 1))
         IN IF ~a.ok \/ ~b.ok THEN Bad
            ELSE IF IntLeq(a.v, b.v) THEN Ok(Expand(a.v, b.v)) ELSE Ok(Expand(b.v, a.v))

\* ---- floats: decimal texts ----
RECURSIVE StripLead(_)
StripLead(s) == IF Len(s) > 0 /\ At(s, 1) = "0" THEN StripLead(From(s, 2)) ELSE s
RECURSIVE StripTrail(_)
StripTrail(s) == IF Len(s) > 0 /\ At(s, Len(s)) = "0" THEN StripTrail(SubSeq(s, 1, Len(s) - 1)) ELSE s

HexVal == [c \in HexSet |-> IF c \in Digits THEN DigitVal[c] ELSE 10 + OrdF[LowC(c)] - OrdF["a"]]
RECURSIVE HexNum(_)
HexNum(s) == IF s = "" THEN 0 ELSE 16 * HexNum(SubSeq(s, 1, Len(s) - 1)) + HexVal[At(s, Len(s))]
IsHex(b) == Len(b) \in 3..9 /\ At(b, 1) = "0" /\ At(b, 2) \in {"x", "X"} /\ All(From(b, 3), HexSet)

RECURSIVE ParseFloat(_)
ParseFloat(t) ==
    LET s == SkipSpaces(t)
        neg == StartsWith(s, "-")
        body == IF neg \/ StartsWith(s, "+") THEN From(s, 2) ELSE s
        pe == IF Find(body, "e", 1) # 0 THEN Find(body, "e", 1) ELSE Find(body, "E", 1)
        mant == IF pe = 0 THEN body ELSE Before(body, pe)
        ex == IF pe = 0 THEN Ok("0") ELSE
              LET x == From(body, pe + 1)
                  g == IF StartsWith(x, "-") \/ StartsWith(x, "+") THEN From(x, 2) ELSE x
                  m == StripZeros(g)
              IN IF g = "" \/ ~All(g, Digits) THEN Bad
                 ELSE Ok((IF StartsWith(x, "-") THEN "-" ELSE "") \o (IF Len(m) > 8 THEN "99999999" ELSE m))
        pd == Find(mant, ".", 1)
        ip == IF pd = 0 THEN mant ELSE Before(mant, pd)
        fp == IF pd = 0 THEN "" ELSE From(mant, pd + 1)
        digs == StripLead(ip \o fp)
        lead == Len(ip \o fp) - Len(digs)           \* zeros dropped in front
        d == StripTrail(digs)
    IN IF Lower(body) \in {"inf", "infinity"} THEN Ok("f:" \o (IF neg THEN "-" ELSE "") \o "1e99999999")
       ELSE IF IsHex(body) THEN ParseFloat((IF neg THEN "-" ELSE "") \o IntText(HexNum(From(body, 3))))
       ELSE IF ip \o fp = "" \/ ~All(ip \o fp, Digits) \/ ~ex.ok THEN Bad
       ELSE IF d = "" THEN Ok("f:0")
       ELSE Ok("f:" \o (IF neg THEN "-" ELSE "") \o d \o "e"
                    \o IntText(Len(ip) - lead + SmallInt(ex.v)))

\* comparison of canonical floats (with tag)
FRec(v) == LET s == From(v, 3)
               neg == IsNeg(s)
               m == MagOf(s)
               p == Find(m, "e", 1)
           IN IF m = "0" THEN [sg |-> 0, d |-> "", e |-> 0]
              ELSE [sg |-> IF neg THEN -1 ELSE 1, d |-> Before(m, p), e |-> SmallInt(From(m, p + 1))]
FloatLess(a, b) ==
    LET x == FRec(a) y == FRec(b) IN
    IF x.sg # y.sg THEN x.sg < y.sg
    ELSE IF x.sg = 0 THEN FALSE
    ELSE LET lt(u, w) == u.e < w.e \/ (u.e = w.e /\ StrLess(u.d, w.d))
         IN IF x.sg = 1 THEN lt(x, y) ELSE lt(y, x)
FloatOfInt(c) == ParseFloat(c).v

\* ---- booleans ----
TrueWords == {"1", "true", "yes", "y", "on", "0x1", "0b1"}
FalseWords == {"0", "false", "no", "n", "off", "0x0", "0b0"}
ParseBool(s) == LET w == Lower(s) IN
                IF w \in TrueWords THEN Ok("b:1") ELSE IF w \in FalseWords THEN Ok("b:0") ELSE Bad

\* ---- generic order on values of one type ----
ValLess(a, b) ==
    CASE At(a, 1) = "i" -> IntLess(From(a, 3), From(b, 3))
      [] At(a, 1) = "f" -> FloatLess(a, b)
      [] At(a, 1) = "b" -> a = "b:0" /\ b = "b:1"
      [] OTHER -> StrLess(From(a, 3), From(b, 3))
ValEq(a, b) == a = b
=============================================================================
