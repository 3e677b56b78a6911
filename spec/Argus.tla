------------------------------- MODULE Argus --------------------------------
(* State machine of the argument parser.                                      *)
(*                                                                            *)
(* A behaviour runs one script of API calls (parse, query, exec, free, ...)   *)
(* over one option table.  argus_parse is broken into one action per critical *)
(* step of the implementation: one token (or one character of a short option  *)
(* cluster) per step, one environment variable per step, one option of the    *)
(* validation per step.  `evs` holds what the last step makes observable.     *)
EXTENDS Values, Help, Regex

VARIABLES
    sc,      \* index of the option table
    script,  \* sequence of API calls
    opi,     \* next call
    ph,      \* "idle" between calls, "args" "env" "post" inside argus_parse, "dead" process gone
    fr,      \* parse frame: level, next argument, positional counter, only-positional, rest of cluster
    pp,      \* <<index into ActiveLevels, last option handled>> in "env" and "post"
    st,      \* st[level][option]: value state of every option
    stack,   \* selected commands, outermost first: <<level, option>>
    err,     \* error_code of the parser
    good,    \* the last parse succeeded and nothing was released since
    shelf,   \* parsers not in use at the moment: table -> state
    occ,     \* history of the running parse: which option received which raw text
    use,     \* history: role of every argument consumed
    evs      \* events of the last step

vars == <<sc, script, opi, ph, fr, pp, st, stack, err, good, shelf, occ, use, evs>>

S == Schemas[sc]
Opt(l, i) == S.levels[l][i]
Op == script[opi]
Argv == Op.argv
Env == Op.env

-----------------------------------------------------------------------------
(* Tables *)
IsVariadic(o) == o.vt \in {"vs", "vi", "vf"}
IsArray(o) == o.vt \in {"as", "ai", "af"}
IsMap(o) == o.vt \in {"ms", "mi", "mf", "mb"}
IsList(o) == IsArray(o) \/ IsVariadic(o)
IsColl(o) == IsList(o) \/ IsMap(o)
\* a custom option: its handler allocates the value, its free handler releases it
IsOwn(o) == o.vt = "own"
IsNumericPos(o) == o.vt \in {"int", "float", "vi", "vf"}

ZeroOf(vt) == CASE vt \in {"flag", "bool"} -> "b:0" [] vt = "int" -> "i:0" [] vt = "float" -> "f:0" [] OTHER -> "N"
InitOpt(o) == [set |-> o.def # "", vc |-> 0, v |-> IF o.def # "" THEN o.def ELSE ZeroOf(o.vt),
               els |-> <<>>]
InitLevel(s, l) == [i \in 1..Len(Schemas[s].levels[l]) |-> InitOpt(Schemas[s].levels[l][i])]
InitSt(s) == [l \in 1..Len(Schemas[s].levels) |-> InitLevel(s, l)]

RECURSIVE FirstBy(_, _, _)
FirstBy(P(_), q, i) == IF i > Len(q) THEN 0 ELSE IF P(q[i]) THEN i ELSE FirstBy(P, q, i + 1)

ByLong(l, n) == LET P(o) == o.k = "opt" /\ n # "" /\ o.l = n IN FirstBy(P, S.levels[l], 1)
ByShort(l, c) == LET P(o) == o.k = "opt" /\ o.s = c IN FirstBy(P, S.levels[l], 1)
\* the title of a group is no name
ByName(l, n) == LET P(o) == o.k \notin {"grp", "end"} /\ o.name # "" /\ o.name = n IN FirstBy(P, S.levels[l], 1)
RECURSIVE PosFrom(_, _, _, _)
PosFrom(q, n, i, k) == IF i > Len(q) THEN 0
                       ELSE IF q[i].k # "pos" THEN PosFrom(q, n, i + 1, k)
                       ELSE IF IsVariadic(q[i]) \/ k = n THEN i
                       ELSE PosFrom(q, n, i + 1, k + 1)
PosAt(l, n) == PosFrom(S.levels[l], n, 1, 0)

\* set of candidate commands for a token: exact match only, else every prefix match
SubsFor(l, tok) ==
    LET q == S.levels[l]
        ex == {i \in 1..Len(q) : q[i].k = "sub" /\ q[i].name = tok}
    IN IF ex # {} THEN {CHOOSE i \in ex : \A j \in ex : i <= j}
       ELSE {i \in 1..Len(q) : q[i].k = "sub" /\ StartsWith(q[i].name, tok)}

Cur == fr.lev
ActiveLevels(stk) == <<1>> \o [i \in 1..Len(stk) |-> Opt(stk[i][1], stk[i][2]).sub]
Chain(stk) == [i \in 1..Len(stk) |-> Opt(stk[i][1], stk[i][2]).name]
TopLevel(stk) == IF stk = <<>> THEN 1 ELSE Opt(stk[Len(stk)][1], stk[Len(stk)][2]).sub
MaxDepth == 8

-----------------------------------------------------------------------------
(* Conversion of one occurrence: handlers and list/map flags *)
\* What a message about a failure has to say: every text of a sequence of `all`, in that order, and
\* at least two of the texts in `two`
Says(q) == [all |-> q, two |-> {}]
Mute == Says({})
R(rc, s) == [rc |-> rc, s |-> s, why |-> Mute]
RW(rc, s, q) == [rc |-> rc, s |-> s, why |-> Says(q)]

ArrayFlags(o, els) ==
    IF Len(els) <= 1 THEN els
    ELSE LET a == IF HasFlag(o, "SORTED") THEN StableSort(ValLess, els) ELSE els
         IN IF HasFlag(o, "UNIQUE") THEN Dedup(ValEq, a) ELSE a
MapFlags(o, els) ==
    IF Len(els) <= 1 THEN els
    ELSE LET SameV(x, y) == x[2] = y[2]
             KeyLess(x, y) == StrLess(x[1], y[1])
             VLess(x, y) == ValLess(x[2], y[2])
             a == IF HasFlag(o, "UNIQUE_VALUE") THEN Dedup(SameV, els) ELSE els
         IN IF HasFlag(o, "SORTED_KEY") THEN StableSort(KeyLess, a)
            ELSE IF HasFlag(o, "SORTED_VALUE") THEN StableSort(VLess, a) ELSE a

Pieces(raw) == IF Has(raw, ",") THEN Split(raw, ",") ELSE <<raw>>

\* value(s) of one list piece
PieceVals(o, p) ==
    CASE o.vt \in {"as", "vs"} -> Ok(<<"s:" \o p>>)
      [] o.vt = "ai" -> ParseIntElem(p)
      [] o.vt = "vi" -> LET r == ParseInt(p) IN IF r.ok THEN Ok(<<"i:" \o r.v>>) ELSE Bad
      [] OTHER -> LET r == ParseFloat(p) IN IF r.ok THEN Ok(<<r.v>>) ELSE Bad
MapVal(o, p) ==
    CASE o.vt = "ms" -> Ok("s:" \o p)
      [] o.vt = "mi" -> LET r == ParseInt(p) IN IF r.ok THEN Ok("i:" \o r.v) ELSE Bad
      [] o.vt = "mf" -> ParseFloat(p)
      [] OTHER -> ParseBool(p)

RECURSIVE AddList(_, _, _, _)
AddList(o, ps, i, els) ==
    IF i > Len(ps) THEN [rc |-> SUCCESS, els |-> els, why |-> {}]
    ELSE LET r == PieceVals(o, ps[i]) IN
         IF r.ok THEN AddList(o, ps, i + 1, els \o r.v)
         ELSE [rc |-> IF IsVariadic(o) THEN E_VALUE ELSE E_FORMAT, els |-> els, why |-> {<<ps[i]>>}]
RECURSIVE AddMap(_, _, _, _)
AddMap(o, ps, i, els) ==
    IF i > Len(ps) THEN [rc |-> SUCCESS, els |-> els, why |-> {}]
    ELSE LET p == Find(ps[i], "=", 1) IN
         IF p = 0 THEN [rc |-> E_FORMAT, els |-> els, why |-> {<<ps[i]>>}]
         ELSE LET key == Before(ps[i], p)
                  r == MapVal(o, From(ps[i], p + 1))
                  K(e) == e[1] = key
                  at == FirstBy(K, els, 1)
              IN IF ~r.ok THEN [rc |-> E_VALUE, els |-> els, why |-> {<<key>>, <<From(ps[i], p + 1)>>}]
                 ELSE AddMap(o, ps, i + 1,
                             IF at = 0 THEN Append(els, <<key, r.v>>) ELSE [els EXCEPT ![at] = <<key, r.v>>])

\* raw is "N" (flag on the command line) or the argument text; has tells which
Handle(o, s, has, raw) ==
    LET scal(v) == [s EXCEPT !.v = v, !.vc = 1, !.set = TRUE]
        coll(els) == [s EXCEPT !.els = els, !.vc = Len(els), !.set = TRUE]
    IN
    CASE o.h = "log" -> IF has /\ o.hbad # "" /\ raw = o.hbad THEN R(o.hrc, s)
                        ELSE R(SUCCESS, scal(IF has THEN "s:" \o raw ELSE "b:1"))
      [] o.h = "own" -> IF o.hbad # "" /\ raw = o.hbad THEN R(o.hrc, [s EXCEPT !.v = "s:" \o raw])
                        ELSE R(SUCCESS, scal("s:" \o raw))
      [] o.h \in {"help", "version"} -> R(SUCCESS, [s EXCEPT !.set = TRUE, !.vc = 1])
      [] o.vt = "flag" /\ ~has -> R(SUCCESS, scal("b:1"))
      [] o.vt \in {"flag", "bool"} -> LET r == ParseBool(raw) IN IF r.ok THEN R(SUCCESS, scal(r.v)) ELSE RW(E_ARGUMENT, s, {<<raw>>})
      [] o.vt = "str" -> R(SUCCESS, scal("s:" \o raw))
      [] o.vt = "int" -> LET r == ParseInt(raw) IN IF r.ok THEN R(SUCCESS, scal("i:" \o r.v)) ELSE RW(E_FORMAT, s, {<<raw>>})
      [] o.vt = "float" -> LET r == ParseFloat(raw) IN IF r.ok THEN R(SUCCESS, scal(r.v)) ELSE RW(E_FORMAT, s, {<<raw>>})
      [] IsList(o) ->
            LET r == AddList(o, IF IsVariadic(o) THEN <<raw>> ELSE Pieces(raw), 1, s.els)
            IN IF r.rc # SUCCESS THEN RW(r.rc, [s EXCEPT !.els = r.els], r.why)
               ELSE R(SUCCESS, coll(ArrayFlags(o, r.els)))
      [] OTHER ->
            LET r == AddMap(o, Pieces(raw), 1, s.els)
            IN IF r.rc # SUCCESS THEN RW(r.rc, [s EXCEPT !.els = r.els], r.why)
               ELSE R(SUCCESS, coll(MapFlags(o, r.els)))

-----------------------------------------------------------------------------
(* Paths *)
\* which option a path denotes: <<level, option>>, <<0, 0>> if none
RECURSIVE Deepest(_, _, _, _)
Deepest(ls, n, a, K) == IF a = 0 THEN <<0, 0>>
                        ELSE LET i == ByName(ls[a], n) IN
                             IF i # 0 /\ Opt(ls[a], i).k \in K THEN <<ls[a], i>> ELSE Deepest(ls, n, a - 1, K)
\* options come before commands
PlainName(ls, n) == LET o == Deepest(ls, n, Len(ls), {"opt", "pos"}) IN
                IF o # <<0, 0>> THEN o ELSE Deepest(ls, n, Len(ls), {"sub"})
Resolve(path) ==
    LET f == Fields(path, ".", 1)
        n == Len(f) - 1
        ls == ActiveLevels(stack)
        ch == Chain(stack)
        at(l, nm) == IF nm = "" \/ ByName(l, nm) = 0 THEN <<0, 0>> ELSE <<l, ByName(l, nm)>>
    IN IF n = 0 THEN (IF path = "" THEN <<0, 0>> ELSE PlainName(ls, path))
       ELSE IF At(path, 1) = "." THEN at(1, From(path, 2))
       ELSE IF n > Len(stack) THEN <<0, 0>>
       ELSE IF \A j \in 1..n : f[j] = ch[j] THEN at(ls[n + 1], f[n + 1])
       ELSE <<0, 0>>

\* what every accessor returns for a path
Kind(o) == IF IsList(o) THEN "list" ELSE IF IsMap(o) THEN "map" ELSE "scalar"
QueryEv(path) ==
    LET w == Resolve(path) IN
    IF w = <<0, 0>> THEN [e |-> "q", p |-> path, f |-> FALSE, kind |-> "none", set |-> FALSE, cnt |-> 0, v |-> "N", els |-> <<>>, cs |-> TRUE, tie |-> FALSE]
    ELSE LET o == Opt(w[1], w[2]) s == st[w[1]][w[2]] IN
         \* a command is set while it is selected
         IF o.k = "sub" THEN [e |-> "q", p |-> path, f |-> TRUE, kind |-> "cmd", set |-> \E j \in 1..Len(stack) : stack[j] = w, cnt |-> 0, v |-> "N", els |-> <<>>, cs |-> good \/ ph # "idle", tie |-> FALSE]
         ELSE
         [e |-> "q", p |-> path, f |-> TRUE, kind |-> Kind(o), set |-> s.set, cnt |-> s.vc, v |-> s.v, els |-> s.els,
          cs |-> o.def = "" \/ s.vc > 0,
          tie |-> IsMap(o) /\ HasFlag(o, "SORTED_VALUE") /\ ~HasFlag(o, "SORTED_KEY")]
-----------------------------------------------------------------------------
(* Callbacks of one occurrence: pre-validators in order, handler, exit flag *)
RawTag(has, raw) == IF has THEN "s:" \o raw ELSE "N"
\* a validator may ask for other options; it sees what has been read so far
Sees(v) == IF v.see = "" THEN <<>> ELSE <<[QueryEv(v.see) EXCEPT !.e = "see"]>>

RECURSIVE Pre(_, _, _, _, _)
Pre(o, has, raw, i, ev) ==
    IF i > Len(o.vals) THEN [rc |-> SUCCESS, ev |-> ev, why |-> Mute]
    ELSE LET v == o.vals[i] IN
         CASE v.t = "pre" ->
                LET ev2 == Append(ev, [e |-> "pre", o |-> o.name, id |-> v.id, raw |-> RawTag(has, raw)]) \o Sees(v)
                IN IF has /\ (v.bad = "*" \/ v.bad = raw) THEN [rc |-> v.rc, ev |-> ev2, why |-> Mute]
                   ELSE Pre(o, has, raw, i + 1, ev2)
           [] v.t = "regex" ->
                IF RegexOk(v.p, raw) THEN Pre(o, has, raw, i + 1, ev) ELSE [rc |-> E_VALUE, ev |-> ev, why |-> Says({<<raw>>, <<v.hint>>})]
           [] OTHER -> Pre(o, has, raw, i + 1, ev)

Callbacks(o, s, has, raw) ==
    IF o.h = "none" THEN [rc |-> E_HANDLER, s |-> s, ev |-> <<>>, why |-> Says({<<o.name>>})]
    ELSE LET p == Pre(o, has, raw, 1, <<>>) IN
         IF p.rc # SUCCESS THEN [rc |-> p.rc, s |-> s, ev |-> p.ev, why |-> p.why]
         ELSE LET hv == IF o.h \in {"log", "own"} THEN Append(p.ev, [e |-> "h", o |-> o.name, id |-> "", raw |-> RawTag(has, raw)]) ELSE p.ev
                  r == Handle(o, s, has, raw)
              IN [rc |-> IF r.rc = SUCCESS /\ HasFlag(o, "EXIT") THEN SHOULD_EXIT ELSE r.rc, s |-> r.s, ev |-> hv, why |-> r.why]

-----------------------------------------------------------------------------
(* Releasing: every collection of the root and of the selected commands *)
FreeAll(s, stk) ==
    LET act == RangeOf(ActiveLevels(stk))
    IN [l \in DOMAIN s |-> IF l \notin act THEN s[l]
                           ELSE [i \in DOMAIN s[l] |->
                                  CASE IsColl(Opt(l, i)) -> [s[l][i] EXCEPT !.els = <<>>, !.vc = 0]
                                    [] IsOwn(Opt(l, i)) -> [s[l][i] EXCEPT !.v = "N", !.vc = 0]
                                    [] OTHER -> s[l][i]]]
Live(s) == {w \in UNION {{<<l, i>> : i \in DOMAIN s[l]} : l \in DOMAIN s} :
               s[w[1]][w[2]].els # <<>> \/ (IsOwn(Opt(w[1], w[2])) /\ s[w[1]][w[2]].v # "N")}

ParseEv(rc, stage, out, hint, why) == [e |-> "parse", rc |-> rc, stage |-> stage, out |-> out, hint |-> hint, why |-> why]

\* argus_parse returns rc after a failure; everything is released
EndFail(s, rc, stage, ev, stk, why) ==
    /\ evs' = Append(ev, ParseEv(rc, stage,
                        IF stage = "args" THEN Usage(S, S.levels[TopLevel(stk)], Chain(stk)) ELSE "",
                        IF stage = "args" THEN "Try '" \o Join(<<S.prog>> \o Chain(stk), " ") \o " --help' for more information." ELSE "", why))
    /\ st' = FreeAll(s, stk)
    /\ err' = rc /\ good' = FALSE
    /\ ph' = "idle" /\ opi' = opi + 1
    /\ stack' = stk

\* what the help of a level is recognised by: the words for its visible entries, and those of other levels' options
LongWords(l, P(_)) == {"--" \o Opt(l, i).l : i \in {j \in 1..Len(S.levels[l]) : Opt(l, j).k = "opt" /\ Opt(l, j).l # "" /\ P(Opt(l, j))}}
Shown(l) == LongWords(l, Visible)
            \cup {"-" \o Opt(l, i).s : i \in {j \in 1..Len(S.levels[l]) : Opt(l, j).k = "opt" /\ Opt(l, j).s # "" /\ Visible(Opt(l, j))}}
            \cup {PosShape(Opt(l, i)) : i \in {j \in 1..Len(S.levels[l]) : Opt(l, j).k = "pos"}}
            \cup {Opt(l, i).name : i \in {j \in 1..Len(S.levels[l]) : Opt(l, j).k = "sub" /\ Visible(Opt(l, j))}}
\* the process ends with status 0 after an exiting option
EndExit(s, o, ev) ==
    LET out == CASE o.h = "help" -> Usage(S, S.levels[Cur], Chain(stack)) \o " " \o HelpText(S, S.levels[Cur], Chain(stack))
                 [] o.h = "version" -> VersionText(S)
                 [] OTHER -> ""
        Whatever(o2) == TRUE
    IN
    /\ evs' = Append(ev, [e |-> "exit", code |-> 0, out |-> out,
                          shows |-> IF o.h = "help" THEN Shown(Cur) ELSE {},
                          hides |-> IF o.h # "help" THEN {} ELSE UNION {LongWords(l, Whatever) : l \in DOMAIN S.levels} \ (Shown(Cur) \cup RangeOf(Split(out, " ")))])
    /\ st' = FreeAll(s, stack)
    /\ ph' = "dead" /\ good' = FALSE
    /\ UNCHANGED <<opi, err, stack>>

\* option (Cur, i) receives raw; nf is the frame afterwards
Fire(i, has, raw, nf) ==
    LET o == Opt(Cur, i)
        r == Callbacks(o, st[Cur][i], has, raw)
        s2 == [st EXCEPT ![Cur][i] = r.s]
    IN /\ occ' = Append(occ, <<Cur, i, RawTag(has, raw)>>)
       /\ fr' = nf
       /\ CASE r.rc = SUCCESS -> /\ st' = s2 /\ evs' = r.ev
                                 /\ UNCHANGED <<opi, ph, stack, err, good>>
            [] r.rc = SHOULD_EXIT -> EndExit(s2, o, r.ev)
            [] OTHER -> EndFail(s2, r.rc, "args", r.ev, stack, r.why)
       /\ UNCHANGED <<sc, script, pp>>

Reject(rc, why) ==
              /\ EndFail(st, rc, "args", <<>>, stack, why)
              /\ UNCHANGED <<sc, script, fr, pp, occ>>

Tok == Argv[fr.i]
More == fr.i <= Len(Argv)
InArgs == ph = "args" /\ fr.ci = "" /\ More
Use(roles) == use' = use \o roles

\* ---- one action per kind of token ----
BeginParse ==
    /\ ph = "idle" /\ opi <= Len(script) /\ Op.op = "parse"
    /\ ph' = "args"
    /\ fr' = [lev |-> 1, i |-> 1, pos |-> 0, only |-> FALSE, ci |-> ""]
    /\ occ' = <<>> /\ use' = <<>> /\ evs' = <<>>
    \* whatever happened before: the root starts as declared, the commands selected earlier are left
    /\ st' = [FreeAll(st, stack) EXCEPT ![1] = InitLevel(sc, 1)]
    /\ stack' = <<>>
    /\ UNCHANGED <<sc, script, opi, pp, err, good>>

Terminator ==
    /\ InArgs /\ ~fr.only /\ Tok = "--"
    /\ fr' = [fr EXCEPT !.only = TRUE, !.i = @ + 1]
    /\ Use(<<"end">>) /\ evs' = <<>>
    /\ UNCHANGED <<sc, script, opi, ph, pp, st, stack, err, good, occ>>

Positional ==
    LET i == PosAt(Cur, fr.pos) IN
    IF i = 0 THEN Reject(E_ARGUMENT, Says({<<Tok>>})) /\ Use(<<"bad">>)
    ELSE Fire(i, TRUE, Tok, [fr EXCEPT !.i = @ + 1, !.pos = @ + 1]) /\ Use(<<"pos">>)

AfterTerminator == InArgs /\ fr.only /\ Positional

IsLong == ~fr.only /\ StartsWith(Tok, "--") /\ Tok # "--"
LongOption ==
    /\ InArgs /\ IsLong
    /\ LET body == From(Tok, 3)
           eq == Find(body, "=", 1)
           name == IF eq = 0 THEN body ELSE Before(body, eq)
           i == ByLong(Cur, name)
           nf(k) == [fr EXCEPT !.i = @ + k]
       IN IF i = 0 THEN Reject(E_ARGUMENT, Says({<<"--" \o name>>})) /\ Use(<<"bad">>)
          ELSE IF Opt(Cur, i).vt = "flag" THEN Fire(i, FALSE, "", nf(1)) /\ Use(<<"opt">>)
          ELSE IF eq # 0 THEN Fire(i, TRUE, From(body, eq + 1), nf(1)) /\ Use(<<"opt">>)
          ELSE IF fr.i < Len(Argv) THEN Fire(i, TRUE, Argv[fr.i + 1], nf(2)) /\ Use(<<"opt", "val">>)
          ELSE Reject(E_MISSING_VALUE, Says({<<"--" \o name>>})) /\ Use(<<"bad">>)

IsDash == ~fr.only /\ ~StartsWith(Tok, "--") /\ StartsWith(Tok, "-") /\ Tok # "-"
LooksNegative == \/ IsDigit(At(Tok, 2))
                 \/ At(Tok, 2) = "." /\ Len(Tok) > 2 /\ IsDigit(At(Tok, 3))
NegativeNumber ==
    /\ InArgs /\ IsDash /\ LooksNegative
    /\ PosAt(Cur, fr.pos) # 0 /\ IsNumericPos(Opt(Cur, PosAt(Cur, fr.pos)))
    /\ Positional
IsCluster == IsDash /\ ~(LooksNegative /\ PosAt(Cur, fr.pos) # 0 /\ IsNumericPos(Opt(Cur, PosAt(Cur, fr.pos))))

\* the first character of `rest` is a short option; the token ends with `rest`
ClusterChar(rest) ==
    LET i == ByShort(Cur, At(rest, 1))
        tail == From(rest, 2)
        nf(k, c) == [fr EXCEPT !.i = @ + k, !.ci = c]
    IN IF i = 0 THEN Reject(E_ARGUMENT, Says({<<"-" \o At(rest, 1)>>})) /\ Use(<<"bad">>)
       ELSE IF Opt(Cur, i).vt = "flag"
            THEN Fire(i, FALSE, "", nf(IF tail = "" THEN 1 ELSE 0, tail)) /\ Use(IF tail = "" THEN <<"opt">> ELSE <<>>)
       ELSE IF tail # "" THEN Fire(i, TRUE, tail, nf(1, "")) /\ Use(<<"opt">>)
       ELSE IF fr.i < Len(Argv) THEN Fire(i, TRUE, Argv[fr.i + 1], nf(2, "")) /\ Use(<<"opt", "val">>)
       ELSE Reject(E_MISSING_VALUE, Says({<<"-" \o At(rest, 1)>>})) /\ Use(<<"bad">>)
ShortOption == InArgs /\ IsCluster /\ ClusterChar(From(Tok, 2))
ClusterRest == ph = "args" /\ fr.ci # "" /\ ClusterChar(fr.ci)

IsWord == ~fr.only /\ (~StartsWith(Tok, "-") \/ Tok = "-")
EnterCommand ==
    /\ InArgs /\ IsWord /\ SubsFor(Cur, Tok) # {}
    /\ IF Cardinality(SubsFor(Cur, Tok)) > 1 THEN Reject(E_AMBIGUOUS, [all |-> {<<Tok>>}, two |-> {Opt(Cur, i).name : i \in SubsFor(Cur, Tok)}]) /\ Use(<<"bad">>)
       ELSE IF Len(stack) >= MaxDepth THEN Reject(E_OVERFLOW, Says({<<Tok>>})) /\ Use(<<"bad">>)
       ELSE LET i == CHOOSE j \in SubsFor(Cur, Tok) : TRUE IN
            /\ st' = [st EXCEPT ![Cur][i].set = TRUE, ![Opt(Cur, i).sub] = InitLevel(sc, Opt(Cur, i).sub)]
            /\ stack' = Append(stack, <<Cur, i>>)
            /\ fr' = [lev |-> Opt(Cur, i).sub, i |-> fr.i + 1, pos |-> 0, only |-> FALSE, ci |-> ""]
            /\ Use(<<"cmd">>) /\ evs' = <<>>
            /\ UNCHANGED <<sc, script, opi, ph, pp, err, good, occ>>
Word == InArgs /\ IsWord /\ SubsFor(Cur, Tok) = {} /\ Positional

ArgsDone ==
    /\ ph = "args" /\ fr.ci = "" /\ ~More
    /\ ph' = "env" /\ pp' = <<1, 0>> /\ err' = SUCCESS /\ evs' = <<>>
    /\ UNCHANGED <<sc, script, opi, fr, st, stack, good, occ, use>>

\* ---- environment ----
EnvName(o) == EnvNameOf(S, o)
RECURSIVE EnvAt(_, _)
EnvAt(n, i) == IF i > Len(Env) THEN 0 ELSE IF Env[i][1] = n THEN i ELSE EnvAt(n, i + 1)
ReadsEnv(l, i) ==
    LET o == Opt(l, i) s == st[l][i] IN
    /\ o.k \in {"opt", "pos"}
    /\ EnvName(o) # "" /\ EnvAt(EnvName(o), 1) # 0
    /\ ~s.set \/ (o.def # "" /\ s.vc = 0) \/ HasFlag(o, "ENV_OVERRIDE")
\* next position after p whose option satisfies P, <<0, 0>> if none
RECURSIVE NextPos(_, _, _)
NextPos(P(_, _), a, i) ==
    LET ls == ActiveLevels(stack) IN
    IF a > Len(ls) THEN <<0, 0>>
    ELSE IF i > Len(S.levels[ls[a]]) THEN NextPos(P, a + 1, 1)
    ELSE IF P(ls[a], i) THEN <<a, i>> ELSE NextPos(P, a, i + 1)
EnvNext == NextPos(ReadsEnv, pp[1], pp[2] + 1)
EnvVariable ==
    /\ ph = "env" /\ EnvNext # <<0, 0>>
    /\ LET l == ActiveLevels(stack)[EnvNext[1]]
           i == EnvNext[2]
           o == Opt(l, i)
           raw == Env[EnvAt(EnvName(o), 1)][2]
           s0 == IF IsColl(o) THEN [st[l][i] EXCEPT !.els = <<>>, !.vc = 0] ELSE st[l][i]
           r == Callbacks(o, s0, TRUE, raw)
           s2 == [st EXCEPT ![l][i] = r.s]
       IN /\ pp' = EnvNext
          /\ occ' = Append(occ, <<l, i, RawTag(TRUE, raw)>>)
          /\ CASE r.rc = SUCCESS -> /\ st' = s2 /\ evs' = r.ev
                                    /\ UNCHANGED <<opi, ph, stack, err, good>>
               [] OTHER -> EndFail(s2, r.rc, "env", r.ev, stack, r.why)
          /\ UNCHANGED <<sc, script, fr, use>>
EnvDone ==
    /\ ph = "env" /\ EnvNext = <<0, 0>>
    /\ ph' = "post" /\ pp' = <<1, 0>> /\ evs' = <<>>
    /\ UNCHANGED <<sc, script, opi, fr, st, stack, err, good, occ, use>>

\* ---- validation ----
\* group of option i: index of the group entry that is open at i, 0 if none
RECURSIVE GroupOf(_, _)
GroupOf(q, i) == IF i = 0 THEN 0 ELSE IF q[i].k \in {"grp", "end"} THEN i ELSE GroupOf(q, i - 1)
InExclusive(l, i) == LET g == GroupOf(S.levels[l], i) IN g # 0 /\ HasFlag(Opt(l, g), "EXCLUSIVE")
SetBefore(l, i) == \E j \in (GroupOf(S.levels[l], i) + 1)..(i - 1) : st[l][j].set

FloatTag(v) == IF At(v, 1) = "f" THEN v ELSE FloatOfInt(From(v, 3))
InRange(o, s, lo, hi) ==
    IF o.vt = "float" THEN ~FloatLess(s.v, FloatOfInt(lo)) /\ ~FloatLess(FloatOfInt(hi), s.v)
    ELSE ~IntLess(From(s.v, 3), lo) /\ ~IntLess(hi, From(s.v, 3))
PostRc(o, s, v) ==
    CASE v.t = "range" -> IF InRange(o, s, v.lo, v.hi) THEN SUCCESS ELSE E_RANGE
      [] v.t = "length" -> IF s.v = "N" THEN E_VALUE
                           ELSE LET n == Len(s.v) - 2 IN
                                IF SmallInt(v.lo) <= n /\ n <= SmallInt(v.hi) THEN SUCCESS ELSE E_RANGE
      [] v.t = "count" -> IF SmallInt(v.lo) <= s.vc /\ s.vc <= SmallInt(v.hi) THEN SUCCESS ELSE E_RANGE
      [] v.t = "choice" -> IF \E j \in 1..Len(v.ch) : v.ch[j] = s.v THEN SUCCESS ELSE E_CHOICE
      [] v.t = "post" -> IF v.bad # "" /\ (v.bad = "*" \/ s.v = "s:" \o v.bad) THEN v.rc ELSE SUCCESS
      [] OTHER -> SUCCESS
\* a value outside the bounds is named with them; bounds that admit nothing are named alone
Outside(v, what) == IF v.t # "range" /\ (StartsWith(v.lo, "-") \/ StartsWith(v.hi, "-")) THEN Mute
                   ELSE IF IntLess(v.hi, v.lo) THEN Says({<<v.lo, v.hi>>}) ELSE Says({<<what, v.lo, v.hi>>})
PostWhy(o, s, v) ==
    CASE v.t = "range" -> Outside(v, IF o.vt = "float" THEN "" ELSE From(s.v, 3))
      [] v.t = "length" -> IF s.v = "N" THEN Mute ELSE Outside(v, ToString(Len(s.v) - 2))
      [] v.t = "count" -> Outside(v, ToString(s.vc))
      [] v.t = "choice" -> Says({<<IF o.vt = "float" THEN "" ELSE From(s.v, 3)>> \o v.ct})
      [] OTHER -> Mute
RECURSIVE Posts(_, _, _, _)
Posts(o, s, i, ev) ==
    IF i > Len(o.vals) THEN [rc |-> SUCCESS, ev |-> ev, why |-> Mute]
    ELSE LET v == o.vals[i]
             ev2 == IF v.t = "post" THEN Append(ev, [e |-> "post", o |-> o.name, id |-> v.id, raw |-> ""]) \o Sees(v) ELSE ev
             rc == PostRc(o, s, v)
         IN IF rc # SUCCESS THEN [rc |-> rc, ev |-> ev2, why |-> PostWhy(o, s, v)] ELSE Posts(o, s, i + 1, ev2)

CheckOpt(l, i) ==
    LET o == Opt(l, i) s == st[l][i]
        p == Posts(o, s, 1, <<>>)
        Absent(n) == ByName(l, n) # 0 /\ ~st[l][ByName(l, n)].set
        Present(n) == ByName(l, n) # 0 /\ st[l][ByName(l, n)].set
        missing == FirstBy(Absent, o.req, 1)
        clash == FirstBy(Present, o.con, 1)
        g == GroupOf(S.levels[l], i)
        Given(j) == st[l][j].set
    IN IF ~s.set THEN [rc |-> E_MISSING_REQUIRED, ev |-> <<>>, why |-> Says({<<o.name>>})]
       ELSE IF InExclusive(l, i) /\ SetBefore(l, i)
            THEN [rc |-> E_EXCLUSIVE, ev |-> <<>>,
                  why |-> Says({<<Opt(l, g).name>>, <<o.name>>, <<Opt(l, FirstBy(LAMBDA j : j > g /\ Given(j), [j \in 1..i |-> j], 1)).name>>})]
       ELSE IF p.rc # SUCCESS THEN p
       ELSE IF missing # 0 THEN [rc |-> E_MISSING_REQUIRED, ev |-> p.ev, why |-> Says({<<o.req[missing], o.name>>})]
       ELSE IF clash # 0 THEN [rc |-> E_CONFLICT, ev |-> p.ev, why |-> Says({<<o.con[clash]>>, <<o.name>>})]
       ELSE [rc |-> SUCCESS, ev |-> p.ev, why |-> Mute]
NeedsCheck(l, i) ==
    LET o == Opt(l, i) s == st[l][i] IN
    \/ o.k \in {"opt", "pos"} /\ HasFlag(o, "REQUIRED") /\ ~s.set
    \/ s.set /\ (Len(o.vals) > 0 \/ Len(o.req) > 0 \/ Len(o.con) > 0 \/ InExclusive(l, i))
PostNext == NextPos(NeedsCheck, pp[1], pp[2] + 1)
PostOption ==
    /\ ph = "post" /\ PostNext # <<0, 0>>
    /\ LET r == CheckOpt(ActiveLevels(stack)[PostNext[1]], PostNext[2])
       IN /\ pp' = PostNext
          /\ IF r.rc = SUCCESS THEN evs' = r.ev /\ UNCHANGED <<st, opi, ph, stack, err, good>>
             ELSE EndFail(st, r.rc, "post", r.ev, stack, r.why)
          /\ UNCHANGED <<sc, script, fr, occ, use>>
ParseOk ==
    /\ ph = "post" /\ PostNext = <<0, 0>>
    /\ ph' = "idle" /\ opi' = opi + 1 /\ good' = TRUE /\ err' = SUCCESS
    /\ evs' = <<ParseEv(SUCCESS, "ok", "", "", Mute)>>
    /\ UNCHANGED <<sc, script, fr, pp, st, stack, occ, use>>

\* a parse during which an allocation fails may be given up (reported as out of memory)
OomFail ==
    /\ ph = "post" /\ PostNext = <<0, 0>> /\ Op.oom > 0
    /\ EndFail(st, E_MEMORY, "oom", <<>>, stack, Mute)
    /\ UNCHANGED <<sc, script, fr, pp, occ, use>>

-----------------------------------------------------------------------------
(* Other API calls *)
AtOp(name) == ph = "idle" /\ opi <= Len(script) /\ Op.op = name
NextOp == opi' = opi + 1

Query ==
    /\ AtOp("q") /\ NextOp
    /\ evs' = <<QueryEv(Op.p)>>
    /\ UNCHANGED <<sc, script, ph, fr, pp, st, stack, err, good, occ, use>>

\* names that execution must (not) list when there is nothing to run
Hidden(o) == HasFlag(o, "HIDDEN")
SubsAt(l) == {LET o == S.levels[l][i] IN [name |-> o.name, sub |-> o.sub, act |-> o.act, hid |-> Hidden(o)]
              : i \in {j \in 1..Len(S.levels[l]) : S.levels[l][j].k = "sub"}}
RECURSIVE Below(_, _, _, _)
\* commands below level l by their path: those reached through visible ones only, or the others
Below(l, base, hid, d) ==
    IF d = 0 THEN {} ELSE
    UNION {LET h == hid \/ o.hid p == base \o " " \o o.name IN {[p |-> p, hid |-> h]} \cup Below(o.sub, p, h, d - 1) : o \in SubsAt(l)}
\* without a command: what can be run, at most two commands deep
Runnable == UNION {(IF o.act # "" THEN {S.prog \o " " \o o.name} ELSE {})
                   \cup {S.prog \o " " \o o.name \o " " \o q.name : q \in {x \in SubsAt(o.sub) : ~x.hid /\ x.act # ""}}
                   : o \in {x \in SubsAt(1) : ~x.hid}}
Exec ==
    /\ AtOp("exec") /\ NextOp
    /\ LET l == TopLevel(stack)
           top == IF stack = <<>> THEN [act |-> "", name |-> S.prog] ELSE Opt(stack[Len(stack)][1], stack[Len(stack)][2])
           below == Below(l, top.name, FALSE, MaxDepth)
       IN evs' = <<IF stack # <<>> /\ top.act # ""
                   THEN [e |-> "exec", rc |-> top.arc, act |-> <<top.act>>, must |-> {}, mustnot |-> {}]
                   ELSE [e |-> "exec", rc |-> IF stack = <<>> THEN E_NO_COMMAND ELSE E_HANDLER, act |-> <<>>,
                         must |-> IF stack = <<>> THEN Runnable ELSE {b.p : b \in {x \in below : ~x.hid}},
                         mustnot |-> {b.p : b \in {x \in below : x.hid}}]>>
    /\ UNCHANGED <<sc, script, ph, fr, pp, st, stack, err, good, occ, use>>

HasCommand ==
    /\ AtOp("hascmd") /\ NextOp
    /\ evs' = <<[e |-> "hascmd", r |-> stack # <<>>]>>
    /\ UNCHANGED <<sc, script, ph, fr, pp, st, stack, err, good, occ, use>>

Free ==
    /\ AtOp("free") /\ NextOp
    /\ st' = FreeAll(st, stack) /\ good' = FALSE
    /\ evs' = <<[e |-> "free"]>>
    /\ UNCHANGED <<sc, script, ph, fr, pp, stack, err, occ, use>>

\* argus_init on the same tables: forgets the selected commands, not the values
Reinit ==
    /\ AtOp("init") /\ NextOp
    /\ stack' = <<>> /\ err' = SUCCESS
    /\ evs' = <<>>
    /\ UNCHANGED <<sc, script, ph, fr, pp, st, good, occ, use>>

Display ==
    /\ ph = "idle" /\ opi <= Len(script) /\ Op.op \in {"help", "usage", "version"} /\ NextOp
    /\ evs' = <<[e |-> Op.op,
                 out |-> CASE Op.op = "help" -> HelpText(S, S.levels[TopLevel(stack)], Chain(stack))
                           [] Op.op = "usage" -> Usage(S, S.levels[TopLevel(stack)], Chain(stack))
                           [] OTHER -> VersionText(S)]>>
    /\ UNCHANGED <<sc, script, ph, fr, pp, st, stack, err, good, occ, use>>

\* the description of every code
Strerror ==
    /\ AtOp("strerror") /\ NextOp
    /\ evs' = <<[e |-> "strerror"]>>
    /\ UNCHANGED <<sc, script, ph, fr, pp, st, stack, err, good, occ, use>>

\* many one-option parses of fresh tables: which texts option Op.o accepts, and what it makes of them
\* (given as `--name=text`, or to a positional as `-- text`, or by its environment variable alone)
One(o, raw) ==
    LET c == Callbacks(o, InitOpt(o), TRUE, raw)
        p == Posts(o, c.s, 1, <<>>)
        ok == c.rc = SUCCESS /\ p.rc = SUCCESS
    IN [ok |-> ok, v |-> IF ok THEN c.s.v ELSE "N", els |-> IF ok THEN c.s.els ELSE <<>>,
        why |-> IF c.rc # SUCCESS THEN c.why ELSE p.why]
Batch ==
    /\ AtOp("batch") /\ NextOp
    /\ LET P(o) == o.k = "pos" /\ o.name = Op.o
           o == Opt(1, IF Op.via = "pos" THEN FirstBy(P, S.levels[1], 1) ELSE ByLong(1, Op.o))
       IN evs' = <<[e |-> "batch", kind |-> Kind(o), r |-> [j \in 1..Len(Op.texts) |-> One(o, Op.texts[j])]]>>
    /\ good' = FALSE
    /\ UNCHANGED <<sc, script, ph, fr, pp, st, stack, err, occ, use>>

\* One parse of a fresh parser that gives option Op.o as many elements as Op.n * Op.r: element or entry j
\* (from 0) is made of the number (a*j + b) mod n, a permutation of 0..n-1 gone through r times.  They
\* come in one text ("long", "env"), one occurrence each ("each"), one argument each ("args") or as
\* r ranges ("range"; a = 1, b = 0).  What the collection holds follows from the numbers alone.
BigNo(j) == (Op.a * (j % Op.n) + Op.b) % Op.n
Wide(x) == ToString(100000 + x)
BigItem(o, x) == CASE o.vt \in {"as", "vs", "ms"} -> "w" \o Wide(x)
                   [] o.vt \in {"ai", "vi", "mi"} -> ToString(x)
                   [] o.vt = "mb" -> IF x % 2 = 0 THEN "yes" ELSE "no"
                   [] OTHER -> ToString(x) \o ".5"
BigText(o, j) == IF IsMap(o) THEN "k" \o Wide(BigNo(j)) \o "=" \o BigItem(o, j) ELSE BigItem(o, BigNo(j))
BigCount(o) == IF IsMap(o) \/ HasFlag(o, "UNIQUE") THEN Op.n ELSE Op.n * Op.r
BigEl(o, j) ==
    IF IsMap(o)
    THEN LET i == IF HasFlag(o, "SORTED_KEY") THEN CHOOSE i \in 0..Op.n - 1 : BigNo(i) = j ELSE j      \* values ascend
         IN <<"k" \o Wide(BigNo(i)), MapVal(o, BigItem(o, i + (Op.r - 1) * Op.n)).v>>                  \* the last one given
    ELSE LET x == IF ~HasFlag(o, "SORTED") THEN BigNo(j) ELSE IF HasFlag(o, "UNIQUE") THEN j ELSE j \div Op.r
         IN PieceVals(o, BigItem(o, x)).v[1]
BigEls(o) == LET In(j) == j < BigCount(o)
                 q == Filter(In, Op.at, 1)
             IN [k \in 1..Len(q) |-> BigEl(o, q[k])]
Big ==
    /\ AtOp("big") /\ NextOp
    /\ LET P(o) == o.k = "pos" /\ o.name = Op.o
           o == Opt(1, IF Op.via = "args" THEN FirstBy(P, S.levels[1], 1) ELSE ByLong(1, Op.o))
           all == Op.n * Op.r
           TooMany(v) == v.t = "count" /\ ~(SmallInt(v.lo) <= BigCount(o) /\ BigCount(o) <= SmallInt(v.hi))
       IN /\ evs' = <<[e |-> "big", kind |-> Kind(o), rc |-> IF FirstBy(TooMany, o.vals, 1) # 0 THEN E_RANGE ELSE SUCCESS, cnt |-> BigCount(o), els |-> BigEls(o)]>>
          \* a small one is also put together element by element
          /\ (all < 30 /\ Op.via \in {"long", "env"} /\ o.vals = <<>>) =>
                 LET c == One(o, Join([j \in 1..all |-> BigText(o, j - 1)], ",")).els
                 IN Assert(c = [j \in 1..BigCount(o) |-> BigEl(o, j - 1)], <<"big", Op, c>>)
    /\ good' = FALSE
    /\ UNCHANGED <<sc, script, ph, fr, pp, st, stack, err, occ, use>>

-----------------------------------------------------------------------------
\* another parser, with tables of its own, is used from now on; this one keeps its state
Mine == [st |-> st, stack |-> stack, err |-> err, good |-> good]
Unused(k) == [st |-> InitSt(k), stack |-> <<>>, err |-> SUCCESS, good |-> FALSE]
Use2 ==
    /\ AtOp("use") /\ NextOp
    /\ LET k == Op.sc
           sh == [j \in DOMAIN shelf \cup {sc, k} |-> IF j = sc THEN Mine ELSE IF j \in DOMAIN shelf THEN shelf[j] ELSE Unused(k)]
       IN /\ shelf' = sh /\ sc' = k
          /\ st' = sh[k].st /\ stack' = sh[k].stack /\ err' = sh[k].err /\ good' = sh[k].good
    /\ occ' = <<>> /\ use' = <<>>
    /\ evs' = <<[e |-> "use"]>>
    /\ UNCHANGED <<script, ph, fr, pp>>

OneParser == \/ BeginParse \/ Terminator \/ AfterTerminator \/ LongOption \/ ShortOption \/ ClusterRest
             \/ NegativeNumber \/ EnterCommand \/ Word \/ ArgsDone
             \/ EnvVariable \/ EnvDone \/ PostOption \/ ParseOk \/ OomFail
ParseStep == OneParser /\ shelf' = shelf
OneCall == Query \/ Exec \/ HasCommand \/ Free \/ Reinit \/ Display \/ Strerror \/ Batch \/ Big
ApiStep == (OneCall /\ shelf' = shelf) \/ Use2
Next == ParseStep \/ ApiStep

Start(s, scr) ==
    /\ sc = s /\ script = scr /\ opi = 1 /\ ph = "idle"
    /\ fr = [lev |-> 1, i |-> 1, pos |-> 0, only |-> FALSE, ci |-> ""]
    /\ pp = <<1, 0>> /\ st = InitSt(s) /\ stack = <<>> /\ err = 0
    /\ good = FALSE /\ shelf = <<>> /\ occ = <<>> /\ use = <<>> /\ evs = <<>>

-----------------------------------------------------------------------------
(* Invariants: the properties stated declaratively, independent of the steps *)
Finished == ph = "dead" \/ (ph = "idle" /\ opi > Len(script))

\* the event list ends in a parse event with this code
LastIs(e) == evs # <<>> /\ evs[Len(evs)].e = e
Succeeded == LastIs("parse") /\ evs[Len(evs)].rc = SUCCESS
Failed == LastIs("parse") /\ evs[Len(evs)].rc # SUCCESS

\* the command chain follows the tables
StackOk == /\ Len(stack) <= MaxDepth
           /\ \A j \in 1..Len(stack) : Opt(stack[j][1], stack[j][2]).k = "sub"
           /\ \A j \in 2..Len(stack) : stack[j][1] = Opt(stack[j - 1][1], stack[j - 1][2]).sub
           /\ Len(stack) > 0 => stack[1][1] = 1

\* C10/C09: a successful parse satisfies every declared constraint of the active levels
ActiveOpts == UNION {{<<l, i>> : i \in 1..Len(S.levels[l])} : l \in RangeOf(ActiveLevels(stack))}
ValidatorsHold(o, s) == \A j \in 1..Len(o.vals) : o.vals[j].t \in {"range", "length", "count", "choice"} => PostRc(o, s, o.vals[j]) = SUCCESS
ConstraintsHold ==
    Succeeded => \A w \in ActiveOpts :
        LET o == Opt(w[1], w[2]) s == st[w[1]][w[2]]
            isset(n) == \E j \in 1..Len(S.levels[w[1]]) : Opt(w[1], j).name = n /\ st[w[1]][j].set
        IN /\ (o.k \in {"opt", "pos"} /\ HasFlag(o, "REQUIRED")) => s.set
           /\ s.set => /\ \A j \in 1..Len(o.req) : isset(o.req[j])
                       /\ \A j \in 1..Len(o.con) : ~isset(o.con[j])
                       /\ ValidatorsHold(o, s)
           /\ (o.k = "grp" /\ HasFlag(o, "EXCLUSIVE")) =>
                 Cardinality({j \in w[2]+1..Len(S.levels[w[1]]) : GroupOf(S.levels[w[1]], j) = w[2] /\ st[w[1]][j].set}) <= 1

\* C13: nothing is held after a failure, an exit or a release
NothingHeld == (Failed \/ LastIs("exit") \/ LastIs("free")) => Live(st) = {}
\* values are only held by options of the active levels
OnlyActiveHold == \A w \in Live(st) : w[1] \in RangeOf(ActiveLevels(stack)) \/ script[1].op # "parse"

\* C04/C05: element counts and flag postconditions
CollectionsOk ==
    \A l \in DOMAIN st : \A i \in DOMAIN st[l] :
        LET o == Opt(l, i) s == st[l][i] IN
        (ph # "dead" /\ ~Failed /\ IsColl(o)) =>
            /\ s.vc = Len(s.els)
            /\ IsMap(o) => \A a, b \in 1..Len(s.els) : a # b => s.els[a][1] # s.els[b][1]
            /\ (IsList(o) /\ HasFlag(o, "SORTED")) => \A a \in 1..Len(s.els) - 1 : ~ValLess(s.els[a + 1], s.els[a])
            /\ (IsList(o) /\ HasFlag(o, "UNIQUE")) => \A a, b \in 1..Len(s.els) : a # b => s.els[a] # s.els[b]
            /\ (IsMap(o) /\ HasFlag(o, "SORTED_KEY")) => \A a \in 1..Len(s.els) - 1 : ~StrLess(s.els[a + 1][1], s.els[a][1])
            /\ (IsMap(o) /\ HasFlag(o, "UNIQUE_VALUE")) => \A a, b \in 1..Len(s.els) : a # b => s.els[a][2] # s.els[b][2]

\* C01/C02: every argument is consumed exactly once, in order
Conserved == ph \in {"args", "env", "post"} => (fr.ci = "" => Len(use) = fr.i - 1) /\ fr.i <= Len(Argv) + 1
\* positional values are exactly the positional tokens in order
PositionalsInOrder ==
    ph \in {"args", "env", "post"} =>
        LET pt == Filter(LAMBDA j : use[j] = "pos", [j \in 1..Len(use) |-> j], 1)
            po == Filter(LAMBDA w : Opt(w[1], w[2]).k = "pos", occ, 1)
        IN ph = "args" => Len(pt) = Len(po) /\ \A j \in 1..Len(pt) : po[j][3] = "s:" \o Argv[pt[j]]
\* arguments after a terminator of the same level are positional
AfterEnd == \A j \in 1..Len(use) : use[j] = "end" => \A k \in j + 1..Len(use) : use[k] \in {"pos", "bad"}

ErrOk == (Failed \/ Succeeded) => err = evs[Len(evs)].rc

Inv == StackOk /\ ConstraintsHold /\ NothingHeld /\ CollectionsOk /\ Conserved /\ PositionalsInOrder /\ AfterEnd /\ ErrOk

\* A command-line flag value only moves while its parse is running
StackMonotone == [][(ph = "args" /\ ph' = "args") => Len(stack') >= Len(stack)]_vars
=============================================================================
