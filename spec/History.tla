------------------------------- MODULE History -------------------------------
(* The state machine of APG.tla on five concrete versions of a project and all  *)
(* commands, with crashes anywhere: every history of IOEnv.RUNS runs is explored *)
(* and exported, to be replayed with the real command.                           *)
(*   IOEnv.RUNS  number of runs        IOEnv.CASES  file for the histories       *)
(*   IOEnv.WIDE  "yes": all commands; otherwise C and COSMOS only                *)
EXTENDS Build, Json, CSV, IOUtils

VARIABLES disk, proc, last,
          hist             \* the runs so far and how they ended

(* ---- the project in five versions ----------------------------------------------- *)
Leaf == Seq_("Leaf", <<Item("a", TUnsigned(8)), Item("b", TSigned(16))>>)
Fixes(name, n) == Seq_(name, <<ItemWc("x", TRef("Leaf"), <<CInt("a", n), CInt("b", 0 - n)>>), Item("y", TRef("Leaf"))>>)
Long  == Project(<<Module_("ma", <<>>, <<[Leaf EXCEPT !.cmt = Cmt("a comment of some length")],
                                         Fixes("Top", 7), Fixes("Other", 9),
                                         EnumN("Mode", "it", 5)>>)>>)
Short == Project(<<Module_("ma", <<>>, <<Leaf, Fixes("Top", 3)>>)>>)
\* artefacts of the very sizes of the short version, with other content
Twin  == Project(<<Module_("ma", <<>>, <<Leaf, Fixes("Top", 4)>>)>>)
Broken == [Long EXCEPT !.modules[1].defs[3].items[2].type = TRef("Missing")]
\* two modules, and in the second a member the C commands cannot generate
Odd == Project(<<Module_("ma", <<Import("mb", <<"Leaf">>)>>, <<Fixes("Top", 5)>>),
                 Module_("mb", <<>>, <<Leaf, Seq_("Late", <<Item("z", TIntAny)>>)>>)>>)
Proj == [long |-> Long, short |-> Short, broken |-> Broken, odd |-> Odd, twin |-> Twin]

RunOf(v, c) ==
  LET names == IF c.cmd = "cosmos" THEN <<"ma">>
               ELSE [i \in 1..Len(Proj[v].modules) |-> Proj[v].modules[i].name] IN
  CASE c.how = "absent" -> [Run(c.cmd, names, IF c.cmd = "cosmos" THEN <<"Top">> ELSE <<>>,
                                IF c.cmd = "binary" THEN "big-endian" ELSE "none") EXCEPT !.missing = TRUE]
    [] c.how = "unknown" /\ c.cmd = "cosmos" -> RunCosmos("ma", <<"Top", "No-such">>)
    [] c.how = "unknown" -> Run(c.cmd, Append(names, "zz"), <<>>, IF c.cmd = "binary" THEN "big-endian" ELSE "none")
    [] OTHER -> Run(c.cmd, names, IF c.cmd = "cosmos" THEN <<"Top">> ELSE <<>>,
                    IF c.cmd = "binary" THEN "big-endian" ELSE "none")

Wide == IOEnv.WIDE = "yes"
Cmds == {[cmd |-> x, how |-> "ok"] : x \in IF Wide THEN {"cfs", "c", "binary", "cosmos"} ELSE {"c", "cosmos"}}
        \cup (IF Wide THEN {[cmd |-> x, how |-> h] : x \in {"c", "cosmos"}, h \in {"absent", "unknown"}} ELSE {})

\* whether it is accepted and which artefacts it has: by the specification of the properties
GoodT == [v \in DOMAIN Proj |-> [c \in Cmds |-> MustAccept(Proj[v], RunOf(v, c))]]
IsGood(v, c) == GoodT[v][c]
\* pieces: the long version has two, the short one; C and binary headers are the same file
FreshT ==
  [v \in DOMAIN Proj |-> [c \in Cmds |->
     [f \in IF IsGood(v, c) THEN Artefacts(Proj[v], RunOf(v, c)) ELSE {} |->
        IF v = "long" THEN <<c.cmd, "L">> ELSE <<c.cmd \o v>>]]]
FreshOf(v, c) == FreshT[v][c]

A == INSTANCE APG WITH Versions <- DOMAIN Proj, Commands <- Cmds, Good <- IsGood, Fresh <- FreshOf

RUNS == CHOOSE n \in 0..9 : ToString(n) = IOEnv.RUNS

\* where the interrupted run stood: files opened, and whether the last one is unfinished
Opened(q) == IF q.st = "writing" THEN Cardinality(DOMAIN q.done) ELSE 0
Unfinished(q) == q.st = "writing" /\ \E f \in DOMAIN q.done : q.done[f] < Len(FreshOf(q.v, q.c)[f])

Init == A!Init /\ hist = <<>>

Start(v, c) == Len(hist) < RUNS /\ A!Start(v, c) /\ UNCHANGED hist
Log(end, open, part) == hist' = Append(hist, [v |-> proc.v, cmd |-> proc.c.cmd, how |-> proc.c.how,
                                             end |-> end, open |-> open, part |-> part])
Reject == A!Reject /\ Log("rejected", 0, FALSE)
Finish == A!Finish /\ Log("done", 0, FALSE)
Crash  == A!Crash /\ Log("crashed", Opened(proc), Unfinished(proc))
Inner  == (A!Accept \/ \E f \in A!AllFiles : A!Open(f) \/ A!Write(f)) /\ UNCHANGED hist
Next == \/ \E v \in DOMAIN Proj, c \in Cmds : Start(v, c)
        \/ Reject \/ Finish \/ Crash \/ Inner
vars == <<disk, proc, last, hist>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Reject \/ Finish \/ Inner)

(* ---- C17 on the design -------------------------------------------------------------- *)
Converges == A!Converges
FailsClean == A!FailsClean
CrashContained == A!CrashContained
NeverWritesWhileChecking == A!NeverWritesWhileChecking
Forgets == A!Forgets
Frame == A!Frame
AppendOnly == A!AppendOnly
Terminates == A!Terminates
\* a run that is repeated after a crash leaves what it would have left without the crash
Recovers ==
  last.res = "done" /\ Len(hist) > 1 /\ hist[Len(hist) - 1].end = "crashed"
    /\ hist[Len(hist) - 1].v = last.v /\ hist[Len(hist) - 1].cmd = last.c.cmd /\ ~A!Appends(last.c) =>
      \A f \in DOMAIN FreshOf(last.v, last.c) : disk[f] = FreshOf(last.v, last.c)[f]

Emit ==
  /\ Len(hist) = 0 /\ proc = A!Idle => CSVWrite("%1$s", <<ToJson(Proj)>>, IOEnv.CASES)
  /\ Len(hist) = RUNS /\ proc = A!Idle => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.CASES)
==============================================================================
