-------------------------------- MODULE Defs --------------------------------
(* The rules every option table must follow, stated over the table alone.     *)
(* A table violating any of them, at any nesting level, is refused by         *)
(* initialisation in debug mode.                                              *)
EXTENDS Argus

Empty == "@empty@"          \* a name that is the empty string; "" is no name at all
Kinds == {"opt", "pos", "sub", "grp", "end"}
IsGroup(o) == o.k \in {"grp", "end"}
Many(o) == o.k = "pos" /\ IsVariadic(o)
Required(o) == HasFlag(o, "REQUIRED")
Single(o) == o.k = "pos" /\ ~IsVariadic(o)

\* ---- names ----
NameOk(o) == IsGroup(o) \/ (o.name # "" /\ o.name # Empty)
ShortOk(o) == o.s \notin {" ", "-"}
LongOk(o) == o.l = "" \/ (o.l # Empty /\ ~StartsWith(o.l, "-") /\ ~Has(o.l, " ") /\ ~Has(o.l, "."))
Idents(o) == {o.name, o.l} \ {""}
\* two entries answer to one name (two groups may)
NameClash(a, b) == ~(IsGroup(a) /\ IsGroup(b)) /\ Idents(a) \cap Idents(b) # {}
ShortClash(a, b) == a.s # "" /\ a.s = b.s
Naming(q) == /\ \A i \in 1..Len(q) : NameOk(q[i]) /\ ShortOk(q[i]) /\ LongOk(q[i])
             /\ \A i, j \in 1..Len(q) : i < j => ~NameClash(q[i], q[j]) /\ ~ShortClash(q[i], q[j])

\* ---- flags ----
Versioning == {"DEPRECATED", "EXPERIMENTAL"}
Common == {"REQUIRED", "HIDDEN", "ADVANCED", "EXIT", "ENV_OVERRIDE", "AUTO_ENV", "NO_ENV_PREFIX"} \cup Versioning
LegalFlags(o) ==
    CASE o.k = "opt" -> Common \cup (IF IsArray(o) THEN {"SORTED", "UNIQUE"}
                                     ELSE IF IsMap(o) THEN {"SORTED_KEY", "SORTED_VALUE", "UNIQUE_VALUE"} ELSE {})
      [] Many(o) -> {"REQUIRED", "SORTED", "UNIQUE"} \cup Versioning
      [] o.k = "pos" -> {"REQUIRED"}
      [] o.k = "sub" -> {"HIDDEN", "ADVANCED"} \cup Versioning
      [] OTHER -> {"EXCLUSIVE"}
FlagsOk(o) == RangeOf(o.flags) \subseteq LegalFlags(o)

\* ---- defaults and dependencies ----
DefaultOk(o) ==
    o.def = "" \/ /\ o.vt # "flag"
                  /\ o.vt = "str" => Pre(o, TRUE, From(o.def, 3), 1, <<>>).rc = SUCCESS
                  /\ Posts(o, InitOpt(o), 1, <<>>).rc = SUCCESS
Known(q, n) == \E i \in 1..Len(q) : ~IsGroup(q[i]) /\ q[i].name = n
DependenciesOk(q, o) ==
    /\ \A j \in 1..Len(o.req) : Known(q, o.req[j])
    /\ \A j \in 1..Len(o.con) : Known(q, o.con[j])
    /\ RangeOf(o.req) \cap RangeOf(o.con) = {}
NoDependencies(o) == o.req = <<>> /\ o.con = <<>>

\* ---- one entry ----
EntryOk(q, o) ==
    /\ FlagsOk(o)
    /\ CASE o.k = "opt" -> (o.s # "" \/ o.l # "") /\ o.help # "" /\ o.h # "none" /\ DefaultOk(o) /\ DependenciesOk(q, o)
         [] o.k = "pos" -> o.help # "" /\ o.h # "none" /\ ~(Required(o) /\ o.def # "") /\ DefaultOk(o) /\ NoDependencies(o)
         [] o.k = "sub" -> o.help # "" /\ o.sub # 0 /\ o.h = "std" /\ NoDependencies(o) /\ o.def = "" /\ o.vals = <<>>
         [] OTHER -> TRUE

\* ---- order ----
Before2(q, P(_), Q(_)) == \E i, j \in 1..Len(q) : i < j /\ P(q[i]) /\ Q(q[j])
IsOpt(o) == o.k = "opt"
IsPos(o) == o.k = "pos"
IsSub(o) == o.k = "sub"
OptionalSingle(o) == Single(o) /\ ~Required(o)
RequiredPos(o) == IsPos(o) /\ Required(o)
Exists(q, P(_)) == \E i \in 1..Len(q) : P(q[i])
Placement(q) ==
    /\ \E i \in 1..Len(q) : q[i].k = "opt" /\ q[i].name = "help"
    /\ ~Before2(q, IsSub, IsOpt)                      \* options before commands
    /\ ~(Exists(q, IsSub) /\ Exists(q, IsPos))        \* commands or positionals
    /\ ~Before2(q, OptionalSingle, RequiredPos)       \* required positionals first
    /\ ~Before2(q, Many, IsPos)                       \* the multi-value one last, hence only one
    /\ ~(Exists(q, Many) /\ Exists(q, OptionalSingle))

LevelOk(q) == Placement(q) /\ Naming(q) /\ \A i \in 1..Len(q) : EntryOk(q, q[i])

\* ---- the whole table, d commands deep ----
RECURSIVE ValidFrom(_, _, _)
ValidFrom(s, lev, d) ==
    /\ LevelOk(s.levels[lev])
    /\ \A i \in 1..Len(s.levels[lev]) :
          (s.levels[lev][i].k = "sub" /\ s.levels[lev][i].sub # 0) =>
              d < MaxDepth /\ ValidFrom(s, s.levels[lev][i].sub, d + 1)
Valid(s) == ValidFrom(s, 1, 0)

\* ---- what the refusal has to name ----
Plain(n) == IF n = Empty THEN "" ELSE n
Tag(o) == IF o.k = "opt" THEN (IF o.l # "" THEN "--" \o Plain(o.l) ELSE "") \o (IF o.s # "" THEN "-" \o o.s ELSE "")
          ELSE IF o.name = "" THEN "unnamed" ELSE Plain(o.name)
\* entries at fault by themselves
FaultyAt(q) == {Tag(q[i]) : i \in {j \in 1..Len(q) : ~(NameOk(q[j]) /\ ShortOk(q[j]) /\ LongOk(q[j]) /\ EntryOk(q, q[j]))}}
\* entries at fault together: one of each pair has to be named
ClashesAt(q) == {{Tag(q[p[1]]), Tag(q[p[2]])} :
                  p \in {w \in (1..Len(q)) \X (1..Len(q)) : w[1] < w[2] /\ (NameClash(q[w[1]], q[w[2]]) \/ ShortClash(q[w[1]], q[w[2]]))}}
RECURSIVE Faults(_, _, _)
\* one: every one of these is named; any: one of each of these sets is named; free: entries of misplaced levels
Faults(s, lev, d) ==
    LET q == s.levels[lev]
        subs == {i \in 1..Len(q) : q[i].k = "sub" /\ q[i].sub # 0}
        deep == {Faults(s, q[i].sub, d + 1) : i \in {j \in subs : d < MaxDepth}}
    IN [one |-> FaultyAt(q) \cup (IF d < MaxDepth THEN {} ELSE {Tag(q[i]) : i \in subs}) \cup UNION {f.one : f \in deep},
        any |-> ClashesAt(q) \cup UNION {f.any : f \in deep},
        free |-> (IF Placement(q) THEN {} ELSE IF q = <<>> THEN {"unnamed"} ELSE {Tag(q[i]) : i \in 1..Len(q)}) \cup UNION {f.free : f \in deep}]

\* argus_init with validation: succeeds silently, or ends the process with a message
Define ==
    /\ AtOp("define") /\ NextOp
    /\ IF Valid(S) THEN ph' = ph /\ evs' = <<[e |-> "init"]>>
                   ELSE ph' = "dead" /\ evs' = <<[e |-> "refuse", f |-> Faults(S, 1, 0)]>>
    /\ stack' = <<>> /\ err' = SUCCESS
    /\ UNCHANGED <<sc, script, fr, pp, st, good, shelf, occ, use>>
=============================================================================
