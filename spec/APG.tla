--------------------------------- MODULE APG ---------------------------------
(* The command as a process that works on a directory.                          *)
(*                                                                              *)
(*   Edit      the user changes the project (another version)                   *)
(*   Start     a run begins: version, command, output directory                 *)
(*   Reject    the project is refused: nothing has been written                 *)
(*   Accept    the project is good: artefacts will be written                   *)
(*   Open      an artefact is opened (cFS, C, binary: truncated; COSMOS: not)   *)
(*   Write     the next piece of an opened artefact reaches the disk            *)
(*   Finish    all artefacts are complete                                       *)
(*   Crash     the run is interrupted, at any point                             *)
EXTENDS Properties

CONSTANTS Versions,        \* versions of the project
          Commands,        \* generate commands: records with field cmd
          Good(_, _),      \* is version v accepted by command c
          Fresh(_, _)      \* artefact -> content (a sequence), into an empty directory

VARIABLES disk,            \* artefact -> content
          proc,            \* the running command
          last             \* how the previous run ended (for the invariants)

vars == <<disk, proc, last>>

Idle == [st |-> "idle"]
Nothing == [res |-> "none"]

(* ---- what the directory looks like after a run ---------------------------------- *)
Appends(c) == c.cmd = "cosmos"

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

At(d, f, empty) == IF f \in DOMAIN d THEN d[f] ELSE empty

Completed(d, fresh, c, empty) ==
  [f \in DOMAIN d \cup DOMAIN fresh |->
     IF f \notin DOMAIN fresh THEN d[f]
     ELSE IF Appends(c) THEN At(d, f, empty) \o fresh[f]
     ELSE fresh[f]]

\* d2 may remain when the run is interrupted
Interrupted(d, d2, fresh, c, empty) ==
  /\ \A f \in (DOMAIN d \cup DOMAIN d2) \ DOMAIN fresh :
        f \in DOMAIN d /\ f \in DOMAIN d2 /\ d2[f] = d[f]
  /\ Appends(c) =>
       \A f \in DOMAIN fresh :
         /\ IsPrefixOf(At(d, f, empty), At(d2, f, empty))
         /\ IsPrefixOf(At(d2, f, empty), At(d, f, empty) \o fresh[f])

(* ---- transitions ----------------------------------------------------------------- *)
Init == /\ disk = <<>>
        /\ proc = Idle
        /\ last = Nothing

Start(v, c) ==
  /\ proc = Idle
  /\ proc' = [st |-> "checking", v |-> v, c |-> c, base |-> disk]
  /\ last' = Nothing
  /\ UNCHANGED disk

Reject ==
  /\ proc.st = "checking" /\ ~Good(proc.v, proc.c)
  /\ last' = [res |-> "rejected", base |-> proc.base, v |-> proc.v, c |-> proc.c]
  /\ proc' = Idle
  /\ UNCHANGED disk

Accept ==
  /\ proc.st = "checking" /\ Good(proc.v, proc.c)
  /\ proc' = [st |-> "writing", v |-> proc.v, c |-> proc.c, base |-> proc.base,
              done |-> [f \in {} |-> 0]]
  /\ UNCHANGED <<disk, last>>

Open(f) ==
  /\ proc.st = "writing"
  /\ f \in DOMAIN Fresh(proc.v, proc.c) \ DOMAIN proc.done
  /\ \A g \in DOMAIN proc.done : proc.done[g] = Len(Fresh(proc.v, proc.c)[g])
  /\ disk' = [g \in DOMAIN disk \cup {f} |->
                IF g # f THEN disk[g]
                ELSE IF Appends(proc.c) THEN At(disk, f, <<>>) ELSE <<>>]
  /\ proc' = [proc EXCEPT !.done = [g \in DOMAIN proc.done \cup {f} |->
                                      IF g = f THEN 0 ELSE proc.done[g]]]
  /\ UNCHANGED last

Write(f) ==
  /\ proc.st = "writing"
  /\ f \in DOMAIN proc.done
  /\ proc.done[f] < Len(Fresh(proc.v, proc.c)[f])
  /\ disk' = [disk EXCEPT ![f] = Append(@, Fresh(proc.v, proc.c)[f][proc.done[f] + 1])]
  /\ proc' = [proc EXCEPT !.done[f] = @ + 1]
  /\ UNCHANGED last

Finish ==
  /\ proc.st = "writing"
  /\ DOMAIN proc.done = DOMAIN Fresh(proc.v, proc.c)
  /\ \A f \in DOMAIN proc.done : proc.done[f] = Len(Fresh(proc.v, proc.c)[f])
  /\ last' = [res |-> "done", base |-> proc.base, v |-> proc.v, c |-> proc.c]
  /\ proc' = Idle
  /\ UNCHANGED disk

Crash ==
  /\ proc.st # "idle"
  /\ last' = [res |-> "crashed", base |-> proc.base, v |-> proc.v, c |-> proc.c]
  /\ proc' = Idle
  /\ UNCHANGED disk

AllFiles == UNION {DOMAIN Fresh(v, c) : v \in Versions, c \in Commands}

Work == Reject \/ Accept \/ Finish \/ \E f \in AllFiles : Open(f) \/ Write(f)

Next == \/ \E v \in Versions, c \in Commands : Start(v, c)
        \/ Work
        \/ Crash

Spec == Init /\ [][Next]_vars /\ WF_vars(Work)

(* ---- C17 on the design -------------------------------------------------------------- *)
Converges ==
  last.res = "done" => disk = Completed(last.base, Fresh(last.v, last.c), last.c, <<>>)
FailsClean ==
  last.res = "rejected" => disk = last.base
CrashContained ==
  last.res = "crashed" => Interrupted(last.base, disk, Fresh(last.v, last.c), last.c, <<>>)
NeverWritesWhileChecking ==
  proc.st = "checking" => disk = proc.base

\* a completed run makes the past of the directory irrelevant for its artefacts
Forgets ==
  last.res = "done" /\ ~Appends(last.c) =>
    \A f \in DOMAIN Fresh(last.v, last.c) : disk[f] = Fresh(last.v, last.c)[f]

Frame == [][\A f \in DOMAIN disk \cup DOMAIN disk' :
              (f \notin DOMAIN disk \/ f \notin DOMAIN disk' \/ disk'[f] # disk[f])
                => proc.st = "writing" /\ f \in DOMAIN Fresh(proc.v, proc.c)]_vars
AppendOnly == [][proc.st = "writing" /\ Appends(proc.c) =>
                   \A f \in DOMAIN disk : f \in DOMAIN disk' /\ IsPrefixOf(disk[f], disk'[f])]_vars
Terminates == proc.st # "idle" ~> proc.st = "idle"
==============================================================================
