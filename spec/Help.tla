-------------------------------- MODULE Help --------------------------------
(* What usage, help and version output say, as whitespace-normalised text.    *)
EXTENDS Values, Tables

HasFlag(o, f) == \E k \in 1..Len(o.flags) : o.flags[k] = f

BlankC(c) == IF c = "\n" \/ c = "\t" THEN " " ELSE c
Norm(s) == Join(Split(MapStr(BlankC, s, 1), " "), " ")
J(a, b) == IF a = "" THEN b ELSE IF b = "" THEN a ELSE a \o " " \o b
RECURSIVE JAll(_, _)
JAll(q, i) == IF i > Len(q) THEN "" ELSE J(q[i], JAll(q, i + 1))

EnvC(c) == IF c = "-" THEN "_" ELSE UpC(c)
EnvUpper(s) == MapStr(EnvC, s, 1)
\* environment variable of an option, "" if none
WithPrefixOf(p, n) == IF p # "" /\ At(p, Len(p)) # "_" THEN p \o "_" \o n ELSE p \o n
EnvNameOf(S, o) ==
    IF o.env # "" THEN IF HasFlag(o, "NO_ENV_PREFIX") THEN o.env
                       ELSE IF S.prefix # "" /\ StartsWith(o.env, S.prefix) THEN o.env
                       ELSE WithPrefixOf(S.prefix, o.env)
    ELSE IF HasFlag(o, "AUTO_ENV")
         THEN EnvUpper(IF HasFlag(o, "NO_ENV_PREFIX") THEN o.name ELSE WithPrefixOf(S.prefix, o.name))
    ELSE ""

\* ---- usage ----
PosShape(o) == LET n == o.name \o (IF o.vt \in {"vs", "vi", "vf"} THEN "..." ELSE "") IN
               IF HasFlag(o, "REQUIRED") THEN "<" \o n \o ">" ELSE "[" \o n \o "]"
PosList(q) == LET P(o) == o.k = "pos" IN SeqMap(PosShape, Filter(P, q, 1), 1)
Usage(S, q, chain) ==
    JAll(<<"Usage: " \o S.prog>> \o chain \o <<"[OPTIONS]">> \o PosList(q)
         \o (IF \E i \in 1..Len(q) : q[i].k = "sub" THEN <<"COMMAND">> ELSE <<>>), 1)

VersionText(S) == JAll(<<S.prog, IF S.ver = "" THEN "" ELSE "v" \o S.ver, Norm(S.desc)>>, 1)

\* ---- validators as text ----
Bounds(v) == v.lo \o "-" \o v.hi
HasText(v) == v.t \in {"range", "length", "count", "choice", "regex"}
ValText(v) ==
    CASE v.t \in {"range", "count"} -> Bounds(v)
      [] v.t = "length" -> Bounds(v) \o " chars"
      [] v.t = "choice" -> Join(v.ct, "|")
      [] OTHER -> IF v.hint # "" THEN v.hint ELSE IF Len(v.pat) <= 15 THEN v.pat ELSE "pattern"
ValNote(v) ==
    CASE v.t = "regex" -> " (pattern: " \o ValText(v) \o ")"
      [] v.t = "choice" -> " [" \o ValText(v) \o "]"
      [] v.t = "length" -> " (" \o ValText(v) \o ")"
      [] v.t = "range" -> " (range: " \o ValText(v) \o ")"
      [] v.t = "count" -> " (count: " \o ValText(v) \o ")"
      [] OTHER -> ""
Short(S, t) == Len(t) <= S.cfg.hl /\ (S.cfg.sp \/ ~Has(t, " "))
\* the only validator of an option is short enough to be its value hint
AsHint(S, o) == o.hint = "" /\ Len(o.vals) = 1 /\ HasText(o.vals[1]) /\ Short(S, ValText(o.vals[1]))

BaseName(vt) == CASE vt = "int" -> "NUM" [] vt = "str" -> "STR" [] vt = "float" -> "FLOAT" [] vt = "bool" -> "BOOL" [] OTHER -> "VALUE"
Hint(S, o) ==
    LET h == IF o.hint # "" THEN o.hint ELSE IF AsHint(S, o) THEN ValText(o.vals[1]) ELSE BaseName(o.vt)
    IN CASE o.vt \in {"as", "ai", "af"} -> "<" \o h \o ",...>"
         [] o.vt \in {"ms", "mi", "mf", "mb"} -> "<KEY=" \o h \o ",...>"
         [] OTHER -> "<" \o h \o ">"

\* canonical float with at most two decimals, as %.2f prints it
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
Fixed2(v) ==
    IF v = "f:0" THEN "0.00" ELSE
    LET r == FRec(v)
        all == IF r.e > 0 THEN r.d \o Zeros(r.e + 2 - Len(r.d)) ELSE Zeros(1 - r.e) \o r.d \o Zeros(2)
        k == IF r.e > 0 THEN r.e ELSE 1
    IN (IF r.sg < 0 THEN "-" ELSE "") \o SubSeq(all, 1, k) \o "." \o SubSeq(all, k + 1, k + 2)

DefNote(o) ==
    IF o.def = "" \/ o.vt = "flag" THEN ""
    ELSE " (default: " \o
         (CASE o.vt = "int" -> From(o.def, 3)
            [] o.vt = "str" -> "\"" \o From(o.def, 3) \o "\""
            [] o.vt = "float" -> Fixed2(o.def)
            [] o.vt = "bool" -> IF o.def = "b:1" THEN "true" ELSE "false"
            [] OTHER -> "") \o ")"

RECURSIVE ValNotes(_, _)
ValNotes(q, i) == IF i > Len(q) THEN "" ELSE ValNote(q[i]) \o ValNotes(q, i + 1)
Attr(o, f, t) == IF HasFlag(o, f) THEN t ELSE ""

Describe(S, o) ==
    LET a == o.help \o (IF o.k = "opt" /\ AsHint(S, o) THEN "" ELSE ValNotes(o.vals, 1)) \o DefNote(o)
        n == EnvNameOf(S, o)
        b == IF n = "" THEN a
             ELSE IF EndsWith(a, ")") THEN SubSeq(a, 1, Len(a) - 1) \o ", env: " \o n \o ")"
             ELSE a \o " (env: " \o n \o ")"
    IN b \o Attr(o, "EXIT", " (exit)") \o Attr(o, "REQUIRED", " (required)")
         \o Attr(o, "DEPRECATED", " (deprecated)") \o Attr(o, "EXPERIMENTAL", " (experimental)")
Desc(S, o) == J("-", Norm(Describe(S, o)))

OptNames(o) == IF o.s = "" THEN "--" \o o.l ELSE IF o.l = "" THEN "-" \o o.s ELSE "-" \o o.s \o ", --" \o o.l
OptEntry(S, o) == JAll(<<OptNames(o), IF o.vt = "flag" THEN "" ELSE Norm(Hint(S, o)), Desc(S, o)>>, 1)

\* ---- sections ----
RECURSIVE Entries(_, _, _)
Entries(E(_), q, i) == IF i > Len(q) THEN "" ELSE J(E(q[i]), Entries(E, q, i + 1))
Visible(o) == ~HasFlag(o, "HIDDEN")

\* name of the group an entry belongs to, "" if none
RECURSIVE GroupName(_, _)
GroupName(q, i) == IF i = 0 THEN "" ELSE IF q[i].k = "grp" THEN q[i].name ELSE IF q[i].k = "end" THEN "" ELSE GroupName(q, i - 1)
RECURSIVE GroupNames(_, _, _)
GroupNames(q, i, acc) ==
    IF i > Len(q) THEN acc
    ELSE LET g == GroupName(q, i) IN
         IF q[i].k = "opt" /\ Visible(q[i]) /\ g # "" /\ g \notin RangeOf(acc) THEN GroupNames(q, i + 1, Append(acc, g))
         ELSE GroupNames(q, i + 1, acc)
RECURSIVE OptsIn(_, _, _)
OptsIn(q, g, i) == IF i > Len(q) THEN <<>>
                   ELSE (IF q[i].k = "opt" /\ Visible(q[i]) /\ GroupName(q, i) = g THEN <<q[i]>> ELSE <<>>) \o OptsIn(q, g, i + 1)

HelpText(S, q, chain) ==
    LET IsPos(o) == o.k = "pos"
        IsSub(o) == o.k = "sub" /\ Visible(o)
        PosE(o) == J(PosShape(o), Desc(S, o))
        OptE(o) == OptEntry(S, o)
        SubE(o) == J(o.name, Desc(S, o))
        pos == Filter(IsPos, q, 1)
        subs == Filter(IsSub, q, 1)
        un == OptsIn(q, "", 1)
        GE(g) == J(Norm(g) \o ":", Entries(OptE, OptsIn(q, g, 1), 1))
        Sect(t, q2, E(_)) == IF q2 = <<>> THEN "" ELSE J(t, Entries(E, q2, 1))
    IN JAll(<<Sect("Arguments:", pos, PosE),
              Entries(GE, GroupNames(q, 1, <<>>), 1),
              Sect("Options:", un, OptE),
              Sect("Commands:", subs, SubE),
              IF subs = <<>> THEN "" ELSE "Run '" \o Join(<<S.prog>> \o chain, " ") \o " COMMAND --help' for more information on a command.">>, 1)
=============================================================================
