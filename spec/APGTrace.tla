------------------------------- MODULE APGTrace -------------------------------
(* Conformance: a trace of real runs is checked against the specification.        *)
(*                                                                                *)
(* IOEnv.TRACE names a JSON file                                                  *)
(*   [focus, projects : Seq(project), events : Seq(event)], an event one of       *)
(*   [e:"run",   p, run, o]            one run, observed                          *)
(*   [e:"agree", p, run, run2, a, b]   cFS run a and COSMOS run b of one project  *)
(*   [e:"image", p, run, run2, a, b]   C run a and binary run b of one project    *)
(*   [e:"same",  p, run, a, b]         two runs which must be identical           *)
(*   [e:"bare",  p, q, run, a, b]      two runs on equivalent projects            *)
(*   [e:"fresh", p, run, key, disk]    content of an empty directory after a run  *)
(*   [e:"newdir"]                      the history continues in an empty directory*)
(*   [e:"put", files]                  the user places files                      *)
(*   [e:"hist",  p, run, key, rc, hang, inj, before, after, obefore, oafter]      *)
(* Every event is consumed; what it violates is collected in bad and written to   *)
(* IOEnv.OUT together with what was really exercised.                             *)
EXTENDS Properties, SequencesExt, Json, IOUtils

T == JsonDeserialize(IOEnv.TRACE)
N == Len(T.events)

VARIABLES l, bad, seen, disk, fresh

\* the state machine of the command; only its directory semantics is needed here
A == INSTANCE APG WITH Versions <- {}, Commands <- {}, Good <- LAMBDA v, c : TRUE,
                       Fresh <- LAMBDA v, c : <<>>, proc <- [st |-> "idle"],
                       last <- [res |-> "none"]

Focus == T.focus

OneRun(p, run, o) ==
  CASE Focus = "C01" -> P01(p, run, o)
    [] Focus = "C02" -> P02(p, run, o)
    [] Focus = "C03" -> P03(p, run, o)
    [] Focus = "C04" -> P04(p, run, o)
    [] Focus = "C05" -> P05(p, run, o)
    [] Focus = "C06" -> P06(p, run, o)
    [] Focus = "C07" -> P07(p, run, o)
    [] Focus = "C08" -> P08(p, run, o)
    [] Focus = "C10" -> P10(p, run, o)
    [] Focus = "C11" -> P11(p, run, o)
    [] Focus = "C12" -> P12(p, run, o)
    [] Focus = "C13" -> P13(p, run, o)
    [] Focus = "C14" -> P14(p, run, o)
    [] Focus = "C18" -> P18(p, run, o)
    [] OTHER -> AcceptClauses(p, run, o, Focus)

AllStructs(o) == FlatSeq([i \in 1..Len(o.files) |->
                            IF o.files[i].kind = "h" THEN o.files[i].structs ELSE <<>>])
AllEnums(o) == FlatSeq([i \in 1..Len(o.files) |->
                            IF o.files[i].kind = "h" THEN o.files[i].enums ELSE <<>>])

Agree(ev) ==
  LET p   == T.projects[ev.p]
      env == Env(p)
      f   == CosmosFile(p, ev.run2, ev.b)
  IN  AcceptClauses(p, ev.run, ev.a, "C09") \cup AcceptClauses(p, ev.run2, ev.b, "C09") \cup
      (IF ~Generated(p, ev.run, ev.a) \/ ~Generated(p, ev.run2, ev.b) THEN {}
       ELSE IF f = <<>> \/ ~f[1].ok \/ Len(f[1].packets) # Len(ev.run2.msgs)
       THEN {Clause("C09.packets", ev.run2.target)}
       ELSE LET ss == AllStructs(ev.a)
                es == AllEnums(ev.a)
            IN  UNION {AgreeClauses(env[ev.run2.msgs[i]], env, ss, es, f[1].packets[i]) :
                         i \in 1..Len(ev.run2.msgs)})

Images(ev) ==
  LET p    == T.projects[ev.p]
      env  == Env(p)
      all  == SelectSeq(AllDefs(p), LAMBDA d : HasFixed(d))
      vars == FlatSeq([i \in 1..Len(ev.a.files) |->
                         IF ev.a.files[i].kind = "c" THEN ev.a.files[i].vars ELSE <<>>])
      bins == SelectSeq(ev.b.files, LAMBDA f : f.kind = "bin")
  IN  AcceptClauses(p, ev.run, ev.a, "C14") \cup AcceptClauses(p, ev.run2, ev.b, "C14") \cup
      (IF ~Generated(p, ev.run, ev.a) \/ ~Generated(p, ev.run2, ev.b) THEN {}
       ELSE UNION {
         LET v == SelectSeq(vars, LAMBDA x : x.name = VarName(all[i].name))
             b == SelectSeq(bins, LAMBDA x : x.name = VarName(all[i].name) \o ".bin")
         IN  IF v = <<>> \/ b = <<>> THEN {} ELSE ImagePair(all[i], env, v[1].bytes, b[1].bytes) :
         i \in 1..Len(all)})

\* changed or created during the run
Touched(o) == Elems(o.after) \ Elems(o.before)

Same(ev) ==
  LET p == T.projects[ev.p] IN
  AcceptClauses(p, ev.run, ev.a, Focus) \cup AcceptClauses(p, ev.run, ev.b, Focus) \cup
  Fail((ev.a.rc = 0) # (ev.b.rc = 0), Focus \o ".verdict", [a |-> ev.a.rc, b |-> ev.b.rc])
  \cup Fail(ev.a.rc = 0 /\ ev.b.rc = 0 /\ Touched(ev.a) # Touched(ev.b), Focus \o ".bytes",
            {x.name : x \in (Touched(ev.a) \ Touched(ev.b)) \cup (Touched(ev.b) \ Touched(ev.a))})

FollowClauses == {"C08.description", "C08.units", "C08.endianness", "C08.packet-description"}

SameBare(ev) ==
  LET p == T.projects[ev.p]
      q == T.projects[ev.q]
      x == Bare(ev.a)
      y == Bare(ev.b)
  IN  AcceptClauses(p, ev.run, ev.a, Focus) \cup AcceptClauses(q, ev.run, ev.b, Focus) \cup
      Fail(x.accepted # y.accepted, Focus \o ".verdict", [a |-> ev.a.rc, b |-> ev.b.rc])
      \cup Fail(x.accepted /\ y.accepted /\ x.files # y.files, Focus \o ".content",
                {f.name : f \in (x.files \ y.files) \cup (y.files \ x.files)})
      \cup Fail(Focus = "C15" /\ ev.run.cmd = "cosmos" /\ x.accepted /\ y.accepted
                  /\ Touched(ev.a) # Touched(ev.b), "C15.cosmos-bytes", ev.run.target)
      \cup (IF Focus = "C16" /\ ev.run.cmd = "cosmos" /\ Generated(q, ev.run, ev.b)
            THEN {c \in CosmosDiff(q, ev.run, ev.b) : c.clause \in FollowClauses} ELSE {})

\* C17: one step of a history
History(ev) ==
  LET p     == T.projects[ev.p]
      known == ev.key \in DOMAIN fresh
      new   == IF known THEN fresh[ev.key] ELSE <<>>
      outOk == Elems(ev.obefore) = Elems(ev.oafter)
  IN  Fail(ev.before # disk, "C17.gap", ev.key)        \* machinery: nobody else may write
      \cup Fail(~outOk, "C17.outside", Elems(ev.oafter) \ Elems(ev.obefore))
      \cup Fail(ev.hang, "C17.hang", ev.key)
      \cup
      (IF MustReject(p, ev.run)
       THEN Fail(ev.rc = 0, "C17.accepted", ev.key)
            \cup Fail(ev.after # ev.before, "C17.rejected-run-wrote",
                      {f \in DOMAIN ev.after : f \notin DOMAIN ev.before \/ ev.before[f] # ev.after[f]})
       ELSE IF ev.rc # 0 /\ ~ev.inj      \* refused, for whatever reason
       THEN Fail(MustAccept(p, ev.run), "C17.refused", ev.key)
            \cup Fail(ev.after # ev.before, "C17.rejected-run-wrote",
                      {f \in DOMAIN ev.after : f \notin DOMAIN ev.before \/ ev.before[f] # ev.after[f]})
       ELSE IF ~MustAccept(p, ev.run) \/ ~known THEN {}
       ELSE IF ev.rc = 0
       THEN LET want == A!Completed(ev.before, new, ev.run, "")
                fs   == DOMAIN want \cup DOMAIN ev.after
            IN  Fail(want # ev.after,
                     IF ev.run.cmd = "cosmos" THEN "C17.append" ELSE "C17.converge",
                     {f \in fs : f \notin DOMAIN want \/ f \notin DOMAIN ev.after \/ want[f] # ev.after[f]})
       ELSE Fail(~A!Interrupted(ev.before, ev.after, new, ev.run, ""), "C17.interrupted", ev.key))

FreshClauses(ev) ==
  LET p == T.projects[ev.p] IN
  Fail(MustAccept(p, ev.run) /\ ev.rc # 0, "C17.refused", ev.key)

Verdict(ev) ==
  CASE ev.e = "run"   -> OneRun(T.projects[ev.p], ev.run, ev.o)
    [] ev.e = "agree" -> Agree(ev)
    [] ev.e = "image" -> Images(ev)
    [] ev.e = "same"  -> Same(ev)
    [] ev.e = "bare"  -> SameBare(ev)
    [] ev.e = "hist"  -> History(ev)
    [] ev.e = "fresh" -> FreshClauses(ev)
    [] OTHER -> {}

\* what the event really demanded
Mine == CASE Focus = "C01" -> ReasonsOfC01 [] Focus = "C02" -> ReasonsOfC02
          [] Focus = "C03" -> ReasonsOfC03 [] Focus = "C04" -> ReasonsOfC04
          [] OTHER -> {}
Demand(ev) ==
  IF "run" \notin DOMAIN ev THEN "none"
  ELSE LET p == T.projects[ev.p]
           rs == Reasons(p, ev.run)
       IN  IF rs \cap Mine # {} THEN "reject:" \o (CHOOSE x \in rs \cap Mine : TRUE)
           ELSE IF rs # {} THEN "invalid"
           ELSE IF Supported(p, ev.run) THEN "accept" ELSE "free"

Init == /\ l = 1
        /\ bad = <<>>
        /\ seen = [x \in {} |-> 0]
        /\ disk = <<>>
        /\ fresh = [x \in {} |-> <<>>]

Consume ==
  /\ l <= N
  /\ LET ev == T.events[l]
         cs == Verdict(ev)
         dm == Demand(ev)
     IN  /\ bad' = IF cs = {} THEN bad
                   ELSE Append(bad, [event |-> l, clauses |-> SetToSeq(cs)])
         /\ seen' = [x \in DOMAIN seen \cup {dm} |->
                       (IF x \in DOMAIN seen THEN seen[x] ELSE 0) + (IF x = dm THEN 1 ELSE 0)]
         /\ disk' = CASE ev.e = "hist" -> ev.after
                      [] ev.e = "newdir" -> <<>>
                      [] ev.e = "put" -> ev.files
                      [] OTHER -> disk
         /\ fresh' = IF ev.e = "fresh" /\ ev.rc = 0
                     THEN [x \in DOMAIN fresh \cup {ev.key} |->
                             IF x = ev.key THEN ev.disk ELSE fresh[x]]
                     ELSE fresh
  /\ l' = l + 1

Report ==
  /\ l = N + 1
  /\ JsonSerialize(IOEnv.OUT, [bad |-> bad, seen |-> seen, events |-> N])
  /\ l' = N + 2
  /\ UNCHANGED <<bad, seen, disk, fresh>>

Next == Consume \/ Report
Spec == Init /\ [][Next]_<<l, bad, seen, disk, fresh>>
View == l
Consumed == TLCGet("stats").diameter = N + 2
===============================================================================
