-------------------------------- MODULE Enum --------------------------------
(* Exhaustive exploration of the specification: every command line over a     *)
(* small alphabet of tokens, up to a length, under every listed environment,  *)
(* followed by every sequence of listed API calls.  The invariants are        *)
(* checked in every state; every script explored is printed and then replayed *)
(* into the library.  A command line whose outcome was decided before its     *)
(* last token is not extended.                                                *)
EXTENDS Defs

ASSUME TLCSet(3, ndJsonDeserialize(IOEnv.CONFS))
VARIABLES ix,   \* <<environment, tokens, calls>> as indices into Conf
          home  \* table of the first call
evars == <<vars, ix, home>>
Conf == TLCGet(3)[home]

TokensOf(q) == [j \in 1..Len(q) |-> Conf.toks[q[j]]]
ParseOp(e, q) == [op |-> "parse", argv |-> TokensOf(q), env |-> Conf.envs[e], oom |-> 0]
ScriptOf(x) == <<ParseOp(x[1], x[2])>> \o [j \in 1..Len(x[3]) |-> Conf.ops[x[3][j]]]

EInit == \E s \in 1..Len(Schemas) : \E e \in 1..Len(TLCGet(3)[s].envs) :
            /\ ix = <<e, <<>>, <<>>>> /\ home = s
            /\ Start(s, <<[op |-> "parse", argv |-> <<>>, env |-> TLCGet(3)[s].envs[e], oom |-> 0]>>)

\* the parse looked at the last token
Undecided == Len(use) >= Len(script[1].argv)
\* calls that may follow: a new parser on the same tables only after a release
Follows(p, n) == n = "init" => p = "free"
Last == script[Len(script)].op
Again(x) ==
    /\ ix' = x /\ home' = home
    /\ sc' = home /\ script' = ScriptOf(x) /\ opi' = 1 /\ ph' = "idle"
    /\ fr' = [lev |-> 1, i |-> 1, pos |-> 0, only |-> FALSE, ci |-> ""]
    /\ pp' = <<1, 0>> /\ st' = InitSt(home) /\ stack' = <<>> /\ err' = 0
    /\ good' = FALSE /\ shelf' = <<>> /\ occ' = <<>> /\ use' = <<>> /\ evs' = <<>>
Grow == /\ Finished /\ Len(script) = 1 /\ Len(ix[2]) < Conf.maxtok /\ Undecided
        /\ \E t \in 1..Len(Conf.toks) : Again(<<ix[1], Append(ix[2], t), <<>>>>)
Call == /\ Finished /\ ph # "dead" /\ Len(ix[3]) < Conf.maxops /\ Len(ix[2]) <= Conf.opstok
        /\ \E o \in 1..Len(Conf.ops) : Follows(Last, Conf.ops[o].op) /\ Again(<<ix[1], ix[2], Append(ix[3], o)>>)
ENext == \/ ~Finished /\ Next /\ ix' = ix /\ home' = home
         \/ Grow \/ Call
ESpec == EInit /\ [][ENext]_evars

\* every script is reported once, at its end
Report == Finished => PrintT("@@S " \o ToString(home) \o " " \o ToString(ix))
EInv == Inv /\ Report
=============================================================================
