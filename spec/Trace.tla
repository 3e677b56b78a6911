-------------------------------- MODULE Trace --------------------------------
(* Conformance: are the events recorded from the real library a behaviour of  *)
(* the specification?  Each case is one script of API calls over one table;   *)
(* every recorded event is compared, at the step of the specification that    *)
(* must produce it, under the aspects the checked property is about.          *)
EXTENDS Defs

\* read once; TLC would otherwise read the files again for every state
ASSUME TLCSet(2, ndJsonDeserialize(IOEnv.CASES))
Cases == TLCGet(2)

VARIABLES cid,   \* case
          l,     \* next recorded event
          res    \* "" running, otherwise the verdict

tvars == <<vars, cid, l, res>>
T == Cases[cid].tr
Asp == RangeOf(Cases[cid].asp)
On(a) == a \in Asp

Callback(e) == e.e \in {"pre", "h", "post", "see"}
NotCallback(e) == ~Callback(e)
Relevant(q) == IF On("cb") THEN q ELSE Filter(NotCallback, q, 1)

If(b, a) == IF b THEN {a} ELSE {}

\* tables with words longer than a line: the breaks inside them are free
Squash(t) == Join(Split(t, " "), "")
SameOut(a, b) == a = b \/ (S.cfg.sq /\ Squash(a) = Squash(b))

\* ---- queries ----
\* the recorded double is the nearest one of the decimal v: v lies in the interval of decimals it stands for
Nearest(v, c) == LET p == Find(c, ";", 1) IN
                 \/ FloatLess(Before(From(c, 3), p - 2), v) /\ FloatLess(v, From(c, p + 1))
                 \/ At(c, 1) = "F" /\ (v = Before(From(c, 3), p - 2) \/ v = From(c, p + 1))      \* a tie goes to the even one
InC(v, cands) == \/ \E j \in 1..Len(cands) : cands[j] = v
                 \/ StartsWith(v, "f:") /\ \E j \in 1..Len(cands) : (StartsWith(cands[j], "F:") \/ StartsWith(cands[j], "G:")) /\ Nearest(v, cands[j])
SameEls(q, t) == Len(q) = Len(t) /\ \A j \in 1..Len(q) : InC(q[j], t[j])
SamePairs(q, t) == Len(q) = Len(t) /\ \A j \in 1..Len(q) : q[j][1] = t[j][1] /\ InC(q[j][2], t[j][2])
\* same entries in an order of ascending values
SameTied(q, t) ==
    /\ Len(q) = Len(t)
    /\ \A j \in 1..Len(q) : \E k \in 1..Len(t) : q[j][1] = t[k][1] /\ InC(q[j][2], t[k][2])
    /\ \A j \in 1..Len(q) : InC(q[j][2], t[j][2])        \* values in order
SameKeys(q, t) == /\ Len(q) = Len(t)
                  /\ \A j \in 1..Len(q) : \E k \in 1..Len(t) : q[j][1] = t[k][1] /\ InC(q[j][2], t[k][2])
QueryDiff(s, t) ==
    IF s.f # (t.gerr = SUCCESS) THEN {"res", "acc"}
    ELSE IF ~s.f THEN If(t.set \/ t.cnt # 0, "res")
                      \cup If(t.gerr # E_NO_VALUE \/ t.aerr # E_NO_VALUE \/ t.merr # E_NO_VALUE \/ t.itn # 0 \/ t.mitn # 0 \/ ~t.zero, "acc")
    ELSE IF s.kind = "cmd" THEN If(s.cs /\ t.set # s.set, "set") \cup If(s.cs /\ t.d # 0, "acc")
    ELSE If(s.cs /\ t.set # s.set, "set")
         \cup If(s.kind # "scalar" /\ t.cnt # s.cnt, "cnt")
         \cup (CASE s.kind = "scalar" -> If(~InC(s.v, t.v), "val")
                 [] s.kind = "list" -> If(~SameEls(s.els, t.els), "val")
                 [] OTHER -> If(~(IF s.tie THEN SameTied(s.els, t.els) ELSE SamePairs(s.els, t.els)), "val"))
         \cup If(\/ t.aerr # (IF s.kind = "list" THEN E_INDEX ELSE E_TYPE)
                 \/ t.merr # (IF s.kind = "map" THEN E_KEY ELSE E_TYPE)
                 \/ ~t.agree \/ ~t.zero
                 \/ t.itn # (IF s.kind = "list" THEN t.cnt ELSE 0)
                 \/ t.mitn # (IF s.kind = "map" THEN t.cnt ELSE 0), "acc")
\* ---- messages; recorded without white space ----
RECURSIVE FindText(_, _, _)
\* where p starts in t, at or after position i; 0 if nowhere
FindText(t, p, i) ==
    IF p = "" THEN i
    ELSE LET k == Find(t, At(p, 1), i) IN
         IF k = 0 \/ k + Len(p) - 1 > Len(t) THEN 0 ELSE IF SubSeq(t, k, k + Len(p) - 1) = p THEN k ELSE FindText(t, p, k + 1)
RECURSIVE InOrder(_, _, _, _)
InOrder(q, j, t, i) ==
    IF j > Len(q) THEN TRUE
    ELSE LET p == Squash(q[j]) k == FindText(t, p, i) IN k # 0 /\ InOrder(q, j + 1, t, k + Len(p))
Explains(w, t) == /\ \A q \in w.all : InOrder(q, 1, t, 1)
                  /\ w.two # {} => Cardinality({n \in w.two : FindText(t, Squash(n), 1) # 0}) >= 2
\* what a refused table is refused for: every entry at fault is named, and no other
Blames(f, named) ==
    LET one == {Squash(n) : n \in f.one}
        any == {{Squash(n) : n \in p} : p \in f.any}
        free == {Squash(n) : n \in f.free}
    IN /\ one \subseteq named
       /\ \A p \in any : p \cap named # {}
       /\ free # {} => named # {}
       /\ named \subseteq one \cup UNION any \cup free

\* one text of a batch
OneDiff(k, s, t) ==
    IF s.ok # t.ok THEN {"rc"}
    ELSE IF ~s.ok THEN If(On("what") /\ ~Explains(s.why, t.txt), "what")
    ELSE If(~(CASE k = "scalar" -> InC(s.v, t.v) [] k = "list" -> SameEls(s.els, t.els) [] OTHER -> SamePairs(s.els, t.els)), "val")
Misses(s, t) == {j \in 1..Len(s.r) : OneDiff(s.kind, s.r[j], t.r[j]) # {}}
BatchDiff(s, t) == IF Len(s.r) # Len(t.r) THEN {"crash"}
                   ELSE UNION {OneDiff(s.kind, s.r[j], t.r[j]) : j \in 1..Len(s.r)} \cup If(t.live # 0, "live")
\* what to print of a rejected event
Brief(s, t) ==
    IF s.e = "batch" /\ t.e = "batch" /\ Len(s.r) = Len(t.r) /\ Misses(s, t) # {}
    THEN LET j == CHOOSE j \in Misses(s, t) : \A k \in Misses(s, t) : j <= k
         IN <<"option", Op.o, "text", Op.texts[j], s.r[j], t.r[j]>>
    ELSE <<s, t>>
\* a released or failed parser only has to answer
Quiet(t) == {}

\* ---- comparison of one event; uline = usage line of the level of the parse ----
Diff(s, t, uline, custom) ==
    CASE s.e = "refuse" -> If(t.e # "exit" \/ t.code = 0 \/ t.errempty, "def")
                           \cup If(t.e = "exit" /\ On("blame") /\ ~Blames(s.f, {Squash(n) : n \in RangeOf(t.blame)}), "blame")
      [] s.e = "init" /\ t.e # "crash" -> If(t.e # "init" \/ ~t.errempty \/ t.out # "" \/ t.live # 0 \/ t.fd # 0, "def")
      \* an allocation failed before the help was reached
      [] s.e = "exit" /\ t.e = "parse" /\ Op.oom > 0 /\ t.oom -> If(t.rc = SUCCESS, "exit") \cup If(t.live # 0 \/ t.fd # 0, "live")
      [] s.e # t.e -> IF t.e \in {"crash", "timeout"} THEN {"crash"}
                      ELSE IF {s.e, t.e} \cap {"pre", "h", "post", "see"} # {} THEN {"cb", "flow"}
                      ELSE {"rc", "exit", "flow"}
      [] s.e = "see" -> If(QueryDiff(s, t) # {} \/ t.p # s.p \/ t.d # 0, "cb")
      [] Callback(s) -> If(s # [e |-> t.e, o |-> t.o, id |-> t.id, raw |-> t.raw], "cb")
      [] s.e = "parse" ->
            If((s.rc = SUCCESS) # (t.rc = SUCCESS), "rc")
            \cup (IF s.stage = "oom" \/ t.oom THEN {}
                  ELSE If(t.rc # s.rc \/ t.err # t.rc, "code")
                       \cup If(t.out # s.out, "out") \cup If(t.hint # s.hint, "hint")
                       \cup If(s.rc # SUCCESS /\ ~custom /\ ~t.msg, "msg")
                       \cup If(On("what") /\ s.rc # SUCCESS /\ ~custom /\ ~Explains(s.why, t.txt), "what")
                       \cup If(s.rc = SUCCESS /\ ~t.errempty, "quiet"))
            \cup If(t.rc # SUCCESS /\ t.live # 0, "live") \cup If(t.fd # 0, "live") \cup If(~t.pure, "pure")
      [] s.e = "exit" /\ t.oom -> If(t.code # s.code, "exit") \cup If(t.live # 0 \/ t.fd # 0, "live")      \* shortened help, perhaps
      [] s.e = "exit" ->
            If(t.code # s.code \/ ~StartsWith(t.out, uline) \/ ~t.errempty, "exit")
            \cup If(~SameOut(t.out, s.out), "exitout")
            \cup If(On("shows") /\ ~(s.shows \subseteq RangeOf(t.words) /\ s.hides \cap RangeOf(t.words) = {}), "shows") \cup If(t.live # 0 \/ t.fd # 0, "live")
      [] s.e = "q" -> IF good THEN QueryDiff(s, t) \cup If(t.d # 0, "live") ELSE Quiet(t)
      [] s.e = "batch" -> BatchDiff(s, t)
      [] s.e = "big" -> IF t.rc # s.rc THEN {"rc"}
                        ELSE IF t.rc # SUCCESS THEN If(t.live # 0, "live")
                        ELSE If(t.cnt # s.cnt, "cnt") \cup If(t.itn # s.cnt \/ ~t.agree, "acc") \cup If(t.live # 0, "live")
                             \cup If(~(IF s.kind = "list" THEN SameEls(s.els, t.els) ELSE SamePairs(s.els, t.els)), "val")
      [] s.e = "exec" ->
            If(t.d # 0, "live")
            \cup (IF ~good /\ stack # <<>> THEN {} ELSE
                  If(\/ t.rc # s.rc \/ t.acts # s.act
                     \/ ~(s.must \subseteq RangeOf(t.paths)) \/ s.mustnot \cap RangeOf(t.paths) # {}, "exec"))
      [] s.e = "hascmd" -> If(t.r # s.r, "stack")
      [] s.e = "use" -> {}
      [] s.e = "free" -> If(t.live # 0 \/ t.fd # 0, "live")
      [] s.e \in {"help", "usage", "version"} -> If(~SameOut(t.out, s.out), "out") \cup If(t.wide, "wide") \cup If(t.d # 0 \/ t.fd # 0, "live")
      [] s.e = "strerror" ->     \* 31 codes, each described; t.t[k + 1] describes k
            If(\/ Cardinality({t.t[k] : k \in 1..31}) # 31
               \/ \E k \in 1..31 : t.t[k] \in {t.t[41], "", "<null>"}, "strerror")
      [] OTHER -> {"flow"}

\* the option that made the process exit
ExitUsage == IF evs' # <<>> /\ evs'[Len(evs')].e = "exit"
             THEN LET w == occ'[Len(occ')] IN IF Opt(w[1], w[2]).h = "help" THEN Usage(S, S.levels[Cur], Chain(stack))
                                              ELSE evs'[Len(evs')].out
             ELSE ""
\* the failure was decided by a callback of the user
ByUser(q) == Len(q) > 1 /\ Callback(q[Len(q) - 1])

RECURSIVE Cmp(_, _, _, _, _, _)
\* first event of q that differs: [n |-> events agreed, d |-> aspects, a |-> any difference outside]
Cmp(q, i, at, ul, cu, out) ==
    IF i > Len(q) THEN [n |-> i - 1, d |-> {}, stop |-> FALSE]
    ELSE IF at + i - 1 > Len(T) THEN [n |-> i - 1, d |-> {"flow"}, stop |-> TRUE]
    ELSE LET d == Diff(q[i], T[at + i - 1], ul, cu) IN
         IF d \cap (Asp \cup {"crash"}) # {} THEN [n |-> i - 1, d |-> d, stop |-> TRUE]
         ELSE IF d \cap {"rc", "exit", "flow", "cb"} # {} /\ (q[i].e # T[at + i - 1].e \/ "rc" \in d)
              THEN [n |-> i - 1, d |-> d, stop |-> TRUE]
         ELSE Cmp(q, i + 1, at, ul, cu, out)

TInit == /\ cid \in 1..Len(Cases)
         /\ Start(Cases[cid].sc, Cases[cid].script)
         /\ l = 1 /\ res = ""

OneStep == IF ph = "post" /\ Op.oom > 0 /\ PostNext = <<0, 0>>
           THEN IF l <= Len(T) /\ T[l].e = "parse" /\ T[l].rc # SUCCESS /\ T[l].oom THEN OomFail /\ shelf' = shelf ELSE ParseOk /\ shelf' = shelf
           ELSE Next \/ Define

Say(v) == PrintT(v)
TNext ==
    /\ res = ""
    /\ OneStep
    /\ cid' = cid
    /\ LET cu == ByUser(evs')
           q == Relevant(evs')
           c == Cmp(q, 1, l, ExitUsage, cu, "")
           over == ph' = "dead" \/ (ph' = "idle" /\ opi' > Len(script))
       IN /\ l' = l + c.n
          /\ res' = IF c.stop THEN IF c.d \cap (Asp \cup {"crash"}) # {} THEN "REJ" ELSE "SKP"
                    ELSE IF ~over THEN ""
                    ELSE IF l + c.n = Len(T) + 1 THEN "ACC"
                    ELSE IF T[l + c.n].e \in {"crash", "timeout"} \/ On("flow") THEN "REJ" ELSE "SKP"
          /\ res' = "" \/ PrintT("@@" \o res' \o " " \o ToString(Cases[cid].id) \o
                (IF res' = "ACC" THEN ""
                 ELSE IF c.n + 1 <= Len(q) /\ l + c.n <= Len(T)
                      THEN " aspects " \o ToString(c.d) \o " expected and recorded " \o ToString(Brief(q[c.n + 1], T[l + c.n]))
                 ELSE " aspects " \o ToString(c.d) \o " expected "
                      \o (IF c.n + 1 <= Len(q) THEN ToString(q[c.n + 1]) ELSE "end") \o " recorded "
                      \o (IF l + c.n <= Len(T) THEN ToString(T[l + c.n]) ELSE "end")))

TSpec == TInit /\ [][TNext]_tvars
TInv == Inv
=============================================================================
