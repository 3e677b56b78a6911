------------------------------- MODULE Regex --------------------------------
(* Languages of the regular expressions used in option tables, as predicates  *)
(* on strings: the documented shape of each predefined pattern, and a few     *)
(* patterns of our own.                                                       *)
EXTENDS Str

NonEmpty(s, C) == s # "" /\ All(s, C)
LenIn(s, a, b) == Len(s) >= a /\ Len(s) <= b
AllIn(q, P(_)) == \A i \in 1..Len(q) : P(q[i])
Num(s) == LET RECURSIVE N(_, _)
              N(t, a) == IF t = "" THEN a ELSE N(From(t, 2), a * 10 + DigitVal[At(t, 1)])
          IN N(s, 0)
\* all digits, at most 9 of them, value between a and b
NumIn(s, a, b) == NonEmpty(s, Digits) /\ Len(s) <= 9 /\ Num(s) >= a /\ Num(s) <= b
LastDot(s) == LET RECURSIVE L(_)
                  L(i) == IF i = 0 THEN 0 ELSE IF At(s, i) = "." THEN i ELSE L(i - 1)
              IN L(Len(s))

Octet(s) == LenIn(s, 1, 3) /\ NumIn(s, 0, 255)
IPv4(s) == LET f == Fields(s, ".", 1) IN Len(f) = 4 /\ AllIn(f, Octet)

Hex4(s) == LenIn(s, 1, 4) /\ All(s, HexSet)
RECURSIVE FindStr(_, _, _)
FindStr(s, p, i) == IF i + Len(p) - 1 > Len(s) THEN 0 ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i ELSE FindStr(s, p, i + 1)
GroupsOf(s) == IF s = "" THEN <<>> ELSE Fields(s, ":", 1)
IPv6(s) ==
    LET p == FindStr(s, "::", 1) IN
    IF p = 0 THEN LET f == Fields(s, ":", 1) IN Len(f) = 8 /\ AllIn(f, Hex4)
    ELSE LET a == GroupsOf(Before(s, p)) b == GroupsOf(From(s, p + 2)) IN
         AllIn(a, Hex4) /\ AllIn(b, Hex4) /\ Len(a) + Len(b) <= 7

Label(s) == LenIn(s, 1, 63) /\ All(s, Alnum \cup {"-"}) /\ At(s, 1) # "-" /\ At(s, Len(s)) # "-"
Domain(s) == LET f == Fields(s, ".", 1) n == Len(f) IN
             Len(s) <= 253 /\ n >= 2 /\ AllIn(SubSeq(f, 1, n - 1), Label) /\ Len(f[n]) >= 2 /\ All(f[n], Letters)

UrlBody(b) == Len(b) >= 2 /\ At(b, 1) \notin {" ", "/", "$", ".", "?", "#"} /\ AllFrom(b, {c \in {At(Ascii, i) : i \in 1..Len(Ascii)} : c # " "}, 3)
Url(s) == LET p == Find(s, ":", 1) IN
          /\ p > 1 /\ At(s, 1) \in Letters /\ All(Before(s, p), Alnum \cup {"+", ".", "-"})
          /\ StartsWith(From(s, p), "://") /\ UrlBody(From(s, p + 3))
Http(s) == \/ StartsWith(s, "http://") /\ UrlBody(From(s, 8))
           \/ StartsWith(s, "https://") /\ UrlBody(From(s, 9))
NoLead(s) == s # "" /\ At(s, 1) # "0"
Port(s) == NoLead(s) /\ Len(s) <= 5 /\ NumIn(s, 1, 65535)

Email(s) == LET p == Find(s, "@", 1) d == From(s, p + 1) k == LastDot(d) IN
            /\ p > 1 /\ All(Before(s, p), Alnum \cup {".", "_", "%", "+", "-"})
            /\ k > 1 /\ All(Before(d, k), Alnum \cup {".", "-"})
            /\ Len(d) - k >= 2 /\ All(From(d, k + 1), Letters)
LocalStrict == Alnum \cup {".", "!", "#", "$", "%", "&", "'", "*", "+", "/", "=", "?", "^", "_", "`", "{", "|", "}", "~", "-"}
EmailStrict(s) == LET p == Find(s, "@", 1) IN
                  p > 1 /\ All(Before(s, p), LocalStrict) /\ AllIn(Fields(From(s, p + 1), ".", 1), Label)

TwoIn(s, a, b) == Len(s) = 2 /\ NumIn(s, a, b)
IsoDate(s) == LET f == Fields(s, "-", 1) IN
              Len(f) = 3 /\ Len(f[1]) = 4 /\ All(f[1], Digits) /\ TwoIn(f[2], 1, 12) /\ TwoIn(f[3], 1, 31)
IsoTime(s) == LET p == Find(s, "T", 1) f == Fields(From(s, p + 1), ":", 1) IN
              p # 0 /\ IsoDate(Before(s, p)) /\ Len(f) = 3 /\ TwoIn(f[1], 0, 23) /\ TwoIn(f[2], 0, 59) /\ TwoIn(f[3], 0, 59)

User(s) == LenIn(s, 3, 20) /\ All(s, Alnum \cup {"_", "-"})
Passwd(s) == Len(s) >= 8 /\ All(s, Alnum) /\ (\E i \in 1..Len(s) : At(s, i) \in Letters) /\ (\E i \in 1..Len(s) : IsDigit(At(s, i)))
HexN(s, n) == Len(s) = n /\ All(s, HexSet)
Uuid(s) == LET f == Fields(s, "-", 1) IN
           /\ Len(f) = 5 /\ HexN(f[1], 8) /\ HexN(f[2], 4) /\ HexN(f[3], 4) /\ HexN(f[4], 4) /\ HexN(f[5], 12)
           /\ At(f[3], 1) = "4" /\ At(f[4], 1) \in {"8", "9", "a", "b", "A", "B"}
UnixPath(s) == StartsWith(s, "/") /\ ~Has(s, " ")
Filename(s) == LET k == LastDot(s) IN
               /\ k > 1 /\ All(Before(s, k), Alnum \cup {"_", ",", " ", "-"})
               /\ LenIn(From(s, k + 1), 1, 5) /\ All(From(s, k + 1), Letters)

VNum(s) == NonEmpty(s, Digits) /\ (s = "0" \/ At(s, 1) # "0")
IdChars == Alnum \cup {"-"}
PreId(s) == NonEmpty(s, IdChars) /\ (~All(s, Digits) \/ VNum(s))
BuildId(s) == NonEmpty(s, IdChars)
Semver(s) ==
    LET p == Find(s, "+", 1)
        main == IF p = 0 THEN s ELSE Before(s, p)
        d == Find(main, "-", 1)
        core == IF d = 0 THEN main ELSE Before(main, d)
        f == Fields(core, ".", 1)
    IN /\ Len(f) = 3 /\ AllIn(f, VNum)
       /\ d # 0 => AllIn(Fields(From(main, d + 1), ".", 1), PreId)
       /\ p # 0 => AllIn(Fields(From(s, p + 1), ".", 1), BuildId)
PosInt(s) == NoLead(s) /\ All(s, Digits)
NegInt(s) == StartsWith(s, "-") /\ PosInt(From(s, 2))
Decimal(s) == LET b == IF s # "" /\ At(s, 1) \in {"-", "+"} THEN From(s, 2) ELSE s
                  k == Find(b, ".", 1)
              IN IF k = 0 THEN NonEmpty(b, Digits) ELSE All(Before(b, k), Digits) /\ NonEmpty(From(b, k + 1), Digits)
HexNum(s) == StartsWith(s, "0x") /\ NonEmpty(From(s, 3), HexSet)

RegexOk(p, s) ==
    CASE p = "IPV4" -> IPv4(s)        [] p = "IPV6" -> IPv6(s)       [] p = "DOMAIN" -> Domain(s)
      [] p = "URL" -> Url(s)          [] p = "HTTP" -> Http(s)       [] p = "PORT" -> Port(s)
      [] p = "EMAIL" -> Email(s)      [] p = "EMAIL_STRICT" -> EmailStrict(s)
      [] p = "ISO_DATE" -> IsoDate(s) [] p = "ISOTIME" -> IsoTime(s)
      [] p = "USER" -> User(s)        [] p = "PASSWD" -> Passwd(s)   [] p = "UUID" -> Uuid(s)
      [] p = "UNIX_PATH" -> UnixPath(s) [] p = "FILENAME" -> Filename(s) [] p = "SEMVER" -> Semver(s)
      [] p = "POS_INT" -> PosInt(s)   [] p = "NEG_INT" -> NegInt(s)
      [] p = "FLOAT" -> Decimal(s)    [] p = "HEX" -> HexNum(s)
      [] p = "digits" -> NonEmpty(s, Digits)                        \* ^[0-9]+$
      [] p = "few" -> LenIn(s, 1, 300) /\ All(s, Digits)            \* ^[0-9]{1,300}$
      [] p = "more" -> NonEmpty(s, Digits)                          \* ^[0-9]+[0-9]{0}$
      [] p = "abc3" -> Len(s) = 3 /\ All(s, LowerSet)               \* ^[a-z]{3}$
      [] p = "kv" -> LET k == Find(s, "=", 1) IN                    \* ^[a-z]+=[0-9]+$
                     k > 1 /\ All(Before(s, k), LowerSet) /\ NonEmpty(From(s, k + 1), Digits)
      [] p = "opt-a-b" -> s \in {"", "a", "b", "ab"}                \* ^a?b?$
      [] p = "issue" -> LET k == Find(s, " ", 1) IN                 \* ^[a-z]+ #[0-9]+$
                        k > 1 /\ All(Before(s, k), LowerSet) /\ At(s, k + 1) = "#" /\ NonEmpty(From(s, k + 2), Digits)
      [] p = "switch" -> s \in {"on", "off"} \/ (LenIn(s, 2, 4) /\ All(s, Digits))   \* ^(on|off|[0-9]{2,4})$
      [] p = "capital" -> s # "" /\ At(s, 1) \in Letters \ LowerSet /\ All(From(s, 2), LowerSet)   \* ^[A-Z][a-z]*$
      [] p = "has-x" -> \E i \in 1..Len(s) - 1 : At(s, i) = "x" /\ At(s, i + 1) \in Digits   \* x[0-9]
      [] OTHER -> FALSE
=============================================================================
