----------------------------- MODULE Properties -----------------------------
(* The listed properties, as predicates on one observed run.                  *)
(*                                                                            *)
(* An observation o of a run is                                               *)
(*   [rc, hang, before, after : Seq([name, dig]), files : Seq(file), allok]   *)
(* with file one of                                                           *)
(*   [kind:"h", name, ok, ok2, structs, enums, macros, docs, moddoc]          *)
(*   [kind:"c", name, ok, vars]    [kind:"bin", name, bytes]                  *)
(*   [kind:"cosmos", name, ok, packets]    [kind:"other", name]               *)
(* Every property is a set of failed clauses (empty: it holds); the verdict   *)
(* is total, so a surprising observation is a failed clause, not an error.    *)
EXTENDS Cosmos, TLC

Clause(c, d) == [clause |-> c, detail |-> ToString(d)]
Fail(cond, c, d) == IF cond THEN {Clause(c, d)} ELSE {}

(* ---- artefacts --------------------------------------------------------------- *)
ModuleFiles(m, cmd) ==
  LET c == CName(m.name) IN
  CASE cmd = "cfs"    -> {c \o "_msg.h", c \o "_msgids.h"}
    [] cmd = "c"      -> {c \o ".h", c \o ".c"}
    [] cmd = "binary" -> {c \o ".h"} \cup
                         {VarName(m.defs[i].name) \o ".bin" :
                            i \in {x \in 1..Len(m.defs) : HasFixed(m.defs[x])}}
    [] OTHER          -> {}

Artefacts(p, run) ==
  IF run.cmd = "cosmos" THEN {run.target \o ".txt"}
  ELSE UNION {ModuleFiles(p.modules[i], run.cmd) : i \in 1..Len(p.modules)}

TypeHeader(m, cmd) == CName(m.name) \o (IF cmd = "cfs" THEN "_msg.h" ELSE ".h")

FilesNamed(o, n) == SelectSeq(o.files, LAMBDA f : f.name = n)

(* ---- acceptance --------------------------------------------------------------- *)
MustReject(p, run) == Reasons(p, run) # {}
MustAccept(p, run) == Reasons(p, run) = {} /\ Supported(p, run)

Untouched(o) == Elems(o.before) = Elems(o.after)

RejectClauses(p, run, o, mine, tag) ==
  LET rs == Reasons(p, run) \cap mine IN
  IF rs = {} THEN {}
  ELSE Fail(o.hang, tag \o ".hang", rs)
       \cup Fail(~o.hang /\ o.rc = 0, tag \o ".accepted", rs)
       \cup Fail(~Untouched(o), tag \o ".wrote", rs)

AcceptClauses(p, run, o, tag) ==
  IF ~MustAccept(p, run) THEN {}
  ELSE Fail(o.hang, tag \o ".hang", {"valid"})
       \cup Fail(~o.hang /\ o.rc # 0, tag \o ".refused", {"valid"})

Generated(p, run, o) == MustAccept(p, run) /\ o.rc = 0 /\ ~o.hang
\* accepted although it need not be
Volunteered(p, run, o) == ~MustAccept(p, run) /\ Reasons(p, run) = {} /\ o.rc = 0 /\ ~o.hang

P01(p, run, o) == RejectClauses(p, run, o, ReasonsOfC01, "C01")
P02(p, run, o) == RejectClauses(p, run, o, ReasonsOfC02, "C02")
P03(p, run, o) == RejectClauses(p, run, o, ReasonsOfC03, "C03") \cup AcceptClauses(p, run, o, "C03")
P04(p, run, o) == RejectClauses(p, run, o, ReasonsOfC04, "C04") \cup AcceptClauses(p, run, o, "C04")
                  \cup Fail(o.hang, "C04.hang", {})

(* ---- complete set of artefacts --------------------------------------------------- *)
NameSeq(s) == [i \in 1..Len(s) |-> s[i].name]

HeaderDefs(m, f, tag) ==
  LET want == {CName(m.defs[i].name) :
                 i \in {x \in 1..Len(m.defs) : m.defs[x].k \in {"seq", "enum"}}}
      seqs == {CName(m.defs[i].name) : i \in {x \in 1..Len(m.defs) : m.defs[x].k = "seq"}}
      got  == NameSeq(f.structs) \o NameSeq(f.enums)
  IN  Fail(~f.ok, tag \o ".unreadable-header", f.name)
      \cup (IF ~f.ok THEN {} ELSE
            Fail(want \ Elems(got) # {}, tag \o ".missing-definition", want \ Elems(got))
            \cup Fail(Elems(got) \ want # {}, tag \o ".extra-definition", Elems(got) \ want)
            \cup Fail(HasDup(got), tag \o ".duplicate-definition", f.name)
            \cup Fail(Elems(NameSeq(f.structs)) \ seqs # {}, tag \o ".wrong-kind", f.name))

PacketNames(f) == [i \in 1..Len(f.packets) |-> f.packets[i].name]

FileSet(p, run, o, tag) ==
  LET got == Elems(NameSeq(o.after)) \ Elems(NameSeq(o.before))
      want == Artefacts(p, run)
  IN  Fail(want \ got # {}, tag \o ".missing-artefact", want \ got)
      \cup Fail(got \ want # {}, tag \o ".extra-artefact", got \ want)

P05(p, run, o) ==
  AcceptClauses(p, run, o, "C05") \cup
  (IF ~Generated(p, run, o) THEN {} ELSE
   FileSet(p, run, o, "C05") \cup
   (IF run.cmd = "cosmos"
    THEN UNION {
           Fail(~o.files[i].ok, "C05.unreadable-cosmos", o.files[i].name)
           \cup Fail(o.files[i].ok /\ PacketNames(o.files[i]) # run.msgs,
                     "C05.packets", PacketNames(o.files[i]))
           \cup Fail(o.files[i].ok /\
                     \E j \in 1..Len(o.files[i].packets) :
                        o.files[i].packets[j].target # run.target,
                     "C05.target", o.files[i].name) :
           i \in {x \in 1..Len(o.files) : o.files[x].kind = "cosmos"}}
         \cup Fail(Cardinality({i \in 1..Len(o.files) : o.files[i].kind = "cosmos"}) # 1,
                   "C05.cosmos-files", Len(o.files))
    ELSE UNION {UNION {HeaderDefs(p.modules[i], f, "C05") :
                         f \in Elems(FilesNamed(o, TypeHeader(p.modules[i], run.cmd)))} :
                i \in 1..Len(p.modules)}
         \cup
         (* nothing is defined a second time: a header that is not the one of a module's types
            (the message identifiers' header) defines no type                              *)
         UNION {Fail(o.files[i].kind = "h" /\ Len(o.files[i].structs) + Len(o.files[i].enums) > 0,
                     "C05.extra-definition", o.files[i].name) :
                i \in {x \in 1..Len(o.files) :
                         \A j \in 1..Len(p.modules) :
                            o.files[x].name # TypeHeader(p.modules[j], run.cmd)}}))

P06(p, run, o) ==
  AcceptClauses(p, run, o, "C06") \cup
  (IF run.cmd = "cosmos" \/ ~(Generated(p, run, o) \/ (Volunteered(p, run, o) /\ NoChoice(p))) THEN {} ELSE
   UNION {
     LET f == o.files[i] IN
     Fail(f.kind = "h" /\ ~f.ok, "C06.header-alone", f.name)
     \cup Fail(f.kind = "h" /\ ~f.ok2, "C06.header-twice", f.name)
     \cup Fail(f.kind = "c" /\ ~f.ok, "C06.source", f.name) :
     i \in 1..Len(o.files)}
   \cup Fail(~o.allok, "C06.headers-together", ""))

(* ---- structures -------------------------------------------------------------------- *)
StructDiff(want, got, tag) ==
  Fail([i \in 1..Len(want.members) |-> want.members[i].name] # NameSeq(got.members),
       tag \o ".members", [struct |-> want.name, got |-> NameSeq(got.members)])
  \cup
  (IF Len(want.members) # Len(got.members) THEN {} ELSE
   UNION {
     LET w == want.members[i]
         g == got.members[i]
         at == want.name \o "." \o w.name
     IN  Fail(w.bits # g.bits, tag \o ".width", [at |-> at, want |-> w.bits, got |-> g.bits])
         \cup Fail(w.cls # g.cls \/ w.ref # g.ref, tag \o ".class",
                   [at |-> at, want |-> w.cls, got |-> g.cls])
         \cup Fail(w.n # g.n, tag \o ".length", [at |-> at, want |-> w.n, got |-> g.n])
         \cup Fail(w.off # g.off, tag \o ".offset", [at |-> at, want |-> w.off, got |-> g.off]) :
     i \in 1..Len(want.members)})
  \cup Fail(want.bytes # got.bytes, tag \o ".size",
            [struct |-> want.name, want |-> want.bytes, got |-> got.bytes])

StructsOf(p, run, o, tag) ==
  LET env == Env(p) IN
  UNION {UNION {UNION {
     LET d == p.modules[mi].defs[di]
         f == FilesNamed(o, TypeHeader(p.modules[mi], run.cmd))
         s == IF f = <<>> \/ ~f[1].ok THEN <<>>
              ELSE SelectSeq(f[1].structs, LAMBDA x : x.name = CName(d.name))
     IN  IF d.k # "seq" THEN {}
         ELSE IF s = <<>> THEN {Clause(tag \o ".missing", d.name)}
         ELSE StructDiff(CStruct(d, env), s[1], tag) :
     di \in 1..Len(p.modules[mi].defs)}} : mi \in 1..Len(p.modules)}

P07(p, run, o) ==
  AcceptClauses(p, run, o, "C07") \cup
  (IF ~Generated(p, run, o) \/ run.cmd = "cosmos" THEN {} ELSE StructsOf(p, run, o, "C07"))

(* ---- COSMOS -------------------------------------------------------------------------- *)
Descr(c) == IF c.has THEN c.text ELSE ""
Unit(c)  == IF c.has THEN c.unit ELSE ""
Little(c) == c.has /\ c.little

StatesOk(w, g) ==
  g.states = [i \in 1..Len(w.states) |-> [name |-> w.states[i], val |-> i - 1]]

LimitsOk(w, g) ==
  IF ~w.limits.has THEN g.limits = <<>>
  ELSE g.limits = <<w.limits.lo, w.limits.lo, w.limits.hi, w.limits.hi>>

FixedOk(w, g) ==
  IF w.kw # "ID" THEN g.kw # "ID"
  ELSE /\ g.kw = "ID"
       /\ CASE w.real -> g.val.k \in {"int", "real"} /\ g.val.f64 = w.fixed[1].f64
            [] w.fixed[1].k = "bool" ->
                 g.val.k = "int" /\ g.val.int = FromInt(IF w.fixed[1].bool THEN 1 ELSE 0)
            [] OTHER -> g.val.k = "int" /\ g.val.int = w.fixed[1].int

ItemDiff(w, g, at) ==
  Fail(w.bits # g.bits, "C08.width", [at |-> at, want |-> w.bits, got |-> g.bits])
  \cup Fail(w.type # g.type, "C08.type", [at |-> at, want |-> w.type, got |-> g.type])
  \cup Fail((w.kw = "ARRAY") # (g.kw = "ARRAY"), "C08.array", [at |-> at, got |-> g.kw])
  \cup Fail(w.kw = "ARRAY" /\ g.kw = "ARRAY" /\ w.total # g.total, "C08.array-size",
            [at |-> at, want |-> w.total, got |-> g.total])
  \cup Fail(~StatesOk(w, g), "C08.states", at)
  \cup Fail(~LimitsOk(w, g), "C08.limits", at)
  \cup Fail(Descr(w.cmt) # g.descr, "C08.description", [at |-> at, want |-> Descr(w.cmt), got |-> g.descr])
  \cup Fail(g.units # (IF Unit(w.cmt) = "" THEN <<>> ELSE <<Unit(w.cmt), Unit(w.cmt)>>),
            "C08.units", [at |-> at, got |-> g.units])
  \cup Fail(Little(w.cmt) # g.little, "C08.endianness", at)

CosmosFile(p, run, o) == FilesNamed(o, run.target \o ".txt")

CosmosDiff(p, run, o) ==
  LET env == Env(p)
      f   == CosmosFile(p, run, o)
  IN  IF f = <<>> \/ ~f[1].ok THEN {Clause("C08.missing", run.target)}
      ELSE IF Len(f[1].packets) # Len(run.msgs) THEN {Clause("C08.packets", run.target)}
      ELSE UNION {
        LET want == Packet(env[run.msgs[i]], env)
            got  == f[1].packets[i]
        IN  Fail(got.name # run.msgs[i], "C08.packet-name", run.msgs[i])
            \cup Fail(got.endian # "BIG_ENDIAN", "C08.packet-endianness", run.msgs[i])
            \cup Fail(got.descr # Descr(want.cmt), "C08.packet-description", run.msgs[i])
            \cup Fail(NameSeq(want.items) # NameSeq(got.items), "C08.items",
                      [packet |-> run.msgs[i], want |-> NameSeq(want.items), got |-> NameSeq(got.items)])
            \cup (IF Len(want.items) # Len(got.items) THEN {}
                  ELSE UNION {ItemDiff(want.items[j], got.items[j],
                                       run.msgs[i] \o "/" \o want.items[j].name) :
                                j \in 1..Len(want.items)}) :
        i \in 1..Len(run.msgs)}

P08(p, run, o) ==
  AcceptClauses(p, run, o, "C08") \cup
  (IF run.cmd # "cosmos" \/ ~(Generated(p, run, o) \/ (Volunteered(p, run, o) /\ MessagesMean(p, run))) THEN {}
   ELSE CosmosDiff(p, run, o))

FixedDiff(p, run, o) ==
  LET env == Env(p)
      f   == CosmosFile(p, run, o)
  IN  IF f = <<>> \/ ~f[1].ok \/ Len(f[1].packets) # Len(run.msgs)
      THEN {Clause("C12.packets", run.target)}
      ELSE UNION {
        LET want == Flatten(env[run.msgs[i]], <<>>, env)
            got  == f[1].packets[i].items
        IN  IF Len(want) # Len(got) THEN {Clause("C12.items", run.msgs[i])}
            ELSE UNION {
              Fail(want[j].kw = "ID" /\ got[j].kw # "ID", "C12.not-fixed",
                   [packet |-> run.msgs[i], item |-> j, name |-> want[j].name])
              \cup Fail(want[j].kw # "ID" /\ got[j].kw = "ID", "C12.wrongly-fixed",
                   [packet |-> run.msgs[i], item |-> j, name |-> want[j].name])
              \cup Fail(want[j].kw = "ID" /\ got[j].kw = "ID" /\ ~FixedOk(want[j], got[j]),
                   "C12.value", [packet |-> run.msgs[i], item |-> j, name |-> want[j].name]) :
              j \in 1..Len(want)} :
        i \in 1..Len(run.msgs)}

P12(p, run, o) ==
  AcceptClauses(p, run, o, "C12") \cup
  (IF ~Generated(p, run, o) \/ run.cmd # "cosmos" THEN {} ELSE FixedDiff(p, run, o))

(* ---- agreement of the cFS and COSMOS views (observation against observation) ------------ *)
\* leaves of an observed struct; structs, enums: all observed ones
RECURSIVE ObsLeaves(_, _, _, _)
ObsLeaves(s, base, structs, fuel) ==
  IF fuel = 0 THEN <<>> ELSE
  FlatSeq([i \in 1..Len(s.members) |->
    LET m == s.members[i]
        subs == SelectSeq(structs, LAMBDA x : x.name = m.ref)
    IN  IF m.cls = "struct" /\ subs # <<>>
        THEN FlatSeq([j \in 1..(IF m.n = 0 THEN 1 ELSE m.n) |->
               ObsLeaves(subs[1], base + m.off + (j - 1) * m.bits, structs, fuel - 1)])
        ELSE <<[name |-> m.name, off |-> base + m.off, bits |-> m.bits,
                n |-> m.n, cls |-> m.cls, ref |-> m.ref]>>])

ClassWord(cls) ==
  CASE cls \in {"uint", "enum"} -> "UINT" [] cls = "int" -> "INT"
    [] cls = "float" -> "FLOAT" [] cls = "char" -> "STRING" [] OTHER -> "?"

LeafBits(l) == l.bits * (IF l.n = 0 THEN 1 ELSE l.n)
ItemBits(g) == IF g.kw = "ARRAY" THEN g.total ELSE g.bits

RECURSIVE RunningSum(_, _, _)
RunningSum(s, i, acc) ==
  IF i > Len(s) THEN <<>> ELSE <<acc>> \o RunningSum(s, i + 1, acc + ItemBits(s[i]))

\* structs, enums: observed in all *_msg.h; d: the message; g: the observed packet
AgreeClauses(d, env, structs, enums, g) ==
  LET s == SelectSeq(structs, LAMBDA x : x.name = CName(d.name)) IN
  IF s = <<>> THEN {Clause("C09.missing-struct", d.name)}
  ELSE
  LET ls   == ObsLeaves(s[1], 0, structs, Len(structs))
      its  == g.items
      offs == RunningSum(its, 1, 0)
      tight == \A i \in 2..Len(ls) : ls[i].off = ls[i - 1].off + LeafBits(ls[i - 1])
  IN  IF Len(ls) # Len(its) THEN {Clause("C09.count", [packet |-> d.name, c |-> Len(ls), cosmos |-> Len(its)])}
      ELSE UNION {
        LET l == ls[i]
            t == its[i]
            at == [packet |-> d.name, item |-> i, name |-> t.name]
            isText == l.cls = "char" /\ t.type = "STRING"
            enumArr == l.cls = "enum" /\ l.n > 0 /\ t.kw = "ARRAY"
            es == SelectSeq(enums, LAMBDA e : e.name = l.ref)
        IN  Fail(l.name # CName(t.name), "C09.name", at)
            \cup Fail(ClassWord(l.cls) # t.type, "C09.class", at)
            \cup (IF enumArr
                  THEN Fail(l.bits # t.bits, "C09.enum-array-width", at)
                       \cup Fail(t.bits > 0 /\ t.total # l.n * t.bits, "C09.elements", at)
                  ELSE IF isText THEN Fail(LeafBits(l) # ItemBits(t), "C09.width", at)
                  ELSE Fail(l.bits # t.bits, "C09.width", at)
                       \cup Fail((l.n > 0) # (t.kw = "ARRAY"), "C09.array", at)
                       \cup Fail(LeafBits(l) # ItemBits(t), "C09.elements", at)
                       \cup Fail(tight /\ l.off # offs[i], "C09.offset", at))
            \cup Fail(l.cls = "enum" /\
                      (es = <<>> \/
                       {[name |-> CName(t.states[j].name), val |-> t.states[j].val] :
                          j \in 1..Len(t.states)} # Elems(es[1].items)),
                      "C09.states", at) :
        i \in 1..Len(ls)}

(* ---- enumerations ------------------------------------------------------------------------ *)
EnumDiff(p, run, o) ==
  UNION {UNION {
     LET d == p.modules[mi].defs[di]
         f == FilesNamed(o, TypeHeader(p.modules[mi], run.cmd))
         e == IF f = <<>> \/ ~f[1].ok THEN <<>>
              ELSE SelectSeq(f[1].enums, LAMBDA x : x.name = CName(d.name))
     IN  IF d.k # "enum" THEN {}
         ELSE IF e = <<>> THEN {Clause("C10.missing", d.name)}
         ELSE Fail(Elems(e[1].items) # CEnum(d).items, "C10.enumerators",
                   [enum |-> d.name, got |-> e[1].items]) :
     di \in 1..Len(p.modules[mi].defs)} : mi \in 1..Len(p.modules)}

EnumUseDiff(p, run, o) ==     \* members of enumeration type are wide enough
  LET env == Env(p) IN
  UNION {UNION {
     LET d == p.modules[mi].defs[di]
         f == FilesNamed(o, TypeHeader(p.modules[mi], run.cmd))
         s == IF f = <<>> \/ ~f[1].ok THEN <<>>
              ELSE SelectSeq(f[1].structs, LAMBDA x : x.name = CName(d.name))
     IN  IF d.k # "seq" \/ s = <<>> THEN {}
         ELSE UNION {
           LET c  == Core(d.items[i].type)
               ms == SelectSeq(s[1].members, LAMBDA m : m.name = CName(d.items[i].key))
           IN  IF c.k # "ref" \/ env[c.name].k # "enum" THEN {}
               ELSE IF ms = <<>> THEN {Clause("C10.no-member", d.items[i].key)}
               ELSE Fail(ms[1].bits < EnumBits(env[c.name]), "C10.too-narrow",
                         [struct |-> d.name, member |-> d.items[i].key, got |-> ms[1].bits])
                    \cup Fail(ms[1].ref # CName(c.name), "C10.wrong-type",
                         [struct |-> d.name, member |-> d.items[i].key, got |-> ms[1].ref]) :
           i \in 1..Len(d.items)} :
     di \in 1..Len(p.modules[mi].defs)} : mi \in 1..Len(p.modules)}

EnumCosmosDiff(p, run, o) ==
  LET env == Env(p)
      f   == CosmosFile(p, run, o)
  IN  IF f = <<>> \/ ~f[1].ok \/ Len(f[1].packets) # Len(run.msgs)
      THEN {Clause("C10.packets", run.target)}
      ELSE UNION {
        LET want == Flatten(env[run.msgs[i]], <<>>, env)
            got  == f[1].packets[i].items
        IN  IF Len(want) # Len(got) THEN {Clause("C10.items", run.msgs[i])}
            ELSE UNION {
              IF want[j].states = <<>> THEN {}
              ELSE Fail(~StatesOk(want[j], got[j]), "C10.states",
                        [packet |-> run.msgs[i], item |-> want[j].name, got |-> got[j].states])
                   \cup Fail(got[j].bits < want[j].bits, "C10.too-narrow",
                        [packet |-> run.msgs[i], item |-> want[j].name, got |-> got[j].bits]) :
              j \in 1..Len(want)} :
        i \in 1..Len(run.msgs)}

P10(p, run, o) ==
  AcceptClauses(p, run, o, "C10") \cup
  (IF ~Generated(p, run, o) THEN {}
   ELSE IF run.cmd = "cosmos" THEN EnumCosmosDiff(p, run, o)
   ELSE EnumDiff(p, run, o) \cup EnumUseDiff(p, run, o))

(* ---- message ids --------------------------------------------------------------------------- *)
MacroDiff(m, f) ==
  LET all  == ModuleMacros(m)
      want == Unambiguous(all)
      got  == Elems(f.macros)
  IN  Fail({x.name : x \in all} \ {x.name : x \in got} # {}, "C11.missing",
           {x.name : x \in all} \ {x.name : x \in got})
      \cup Fail({x.name : x \in got} \ {x.name : x \in all} # {}, "C11.extra",
           {x.name : x \in got} \ {x.name : x \in all})
      \cup UNION {
        LET g == {y \in got : y.name = x.name} IN
        Fail(g # {} /\ ~\E y \in g :
               CASE x.k = "bool" -> y.k = "bool" /\ y.bool = x.bool
                 [] x.k = "int"  -> y.k = "int" /\ y.int = x.int
                 [] OTHER        -> y.k = "real" /\ y.f64 = x.f64,
             "C11.value", x.name) :
        x \in want}

P11(p, run, o) ==
  AcceptClauses(p, run, o, "C11") \cup
  (IF ~Generated(p, run, o) \/ run.cmd # "cfs" THEN {} ELSE
   UNION {
     LET f == FilesNamed(o, CName(p.modules[i].name) \o "_msgids.h")
     IN  IF f = <<>> \/ ~f[1].ok THEN {Clause("C11.no-ids-file", p.modules[i].name)}
         ELSE MacroDiff(p.modules[i], f[1]) :
     i \in 1..Len(p.modules)})

(* ---- C variables ------------------------------------------------------------------------------ *)
VarDiff(p, m, f, env) ==
  LET fixed == SelectSeq(m.defs, LAMBDA d : HasFixed(d))
      want  == {VarName(fixed[i].name) : i \in 1..Len(fixed)}
      got   == NameSeq(f.vars)
  IN  Fail(want \ Elems(got) # {}, "C13.missing", want \ Elems(got))
      \cup Fail(Elems(got) \ want # {}, "C13.extra", Elems(got) \ want)
      \cup Fail(HasDup(got), "C13.duplicate", f.name)
      \cup UNION {
        LET v == SelectSeq(f.vars, LAMBDA x : x.name = VarName(fixed[i].name)) IN
        IF v = <<>> THEN {}
        ELSE Fail(v[1].type # CName(fixed[i].name), "C13.type", v[1].name)
             \cup Fail(~v[1].declared, "C13.not-declared", v[1].name)
             \cup Fail(~ImageMatches(fixed[i], env, v[1].bytes), "C13.value",
                       [var |-> v[1].name, got |-> v[1].bytes]) :
        i \in 1..Len(fixed)}

P13(p, run, o) ==
  AcceptClauses(p, run, o, "C13") \cup
  (IF ~Generated(p, run, o) \/ run.cmd # "c" THEN {} ELSE
   LET env == Env(p) IN
   UNION {
     LET f == FilesNamed(o, CName(p.modules[i].name) \o ".c")
     IN  IF f = <<>> \/ ~f[1].ok THEN {Clause("C13.no-source", p.modules[i].name)}
         ELSE VarDiff(p, p.modules[i], f[1], env) :
     i \in 1..Len(p.modules)})

(* ---- binary images ------------------------------------------------------------------------------ *)
P14(p, run, o) ==
  AcceptClauses(p, run, o, "C14") \cup
  (IF ~Generated(p, run, o) \/ run.cmd # "binary" THEN {} ELSE
   LET env   == Env(p)
       all   == AllDefs(p)
       fixed == SelectSeq(all, LAMBDA d : HasFixed(d))
       want  == {VarName(fixed[i].name) \o ".bin" : i \in 1..Len(fixed)}
       bins  == SelectSeq(o.files, LAMBDA f : f.kind = "bin")
   IN  Fail(Elems(NameSeq(bins)) # want, "C14.files", Elems(NameSeq(bins)))
       \cup UNION {
         LET f == SelectSeq(bins, LAMBDA x : x.name = VarName(fixed[i].name) \o ".bin") IN
         IF f = <<>> THEN {}
         ELSE Fail(f[1].bytes # Image(fixed[i], run.endian = "big-endian", env), "C14.bytes",
                   [file |-> f[1].name, got |-> f[1].bytes,
                    want |-> Image(fixed[i], run.endian = "big-endian", env)]) :
         i \in 1..Len(fixed)})

\* every bit of the SEQUENCE is fixed
FullyFixed(d, env) ==
  LET leaves == FixedLeaves(d, env)
      n == StructBits(d, env)
  IN  \A i \in 0..(n - 1) : \E l \in leaves : l.off <= i /\ i < l.off + l.bits

ImagePair(d, env, var, bin) ==
  Fail(FullyFixed(d, env) /\ var # bin, "C14.differs-from-variable",
       [type |-> d.name, var |-> var, bin |-> bin])

(* ---- documentation ---------------------------------------------------------------------------------- *)
DocText(c) ==
  IF ~c.has THEN "" ELSE
  IF c.unit = "" THEN c.text
  ELSE IF c.text = "" THEN "[" \o c.unit \o "]"
  ELSE "[" \o c.unit \o "] " \o c.text

DocDiff(m, f) ==
  Fail(f.moddoc # Descr(m.cmt), "C18.module", [want |-> Descr(m.cmt), got |-> f.moddoc])
  \cup UNION {
    LET d == m.defs[i]
        g == SelectSeq(f.docs, LAMBDA x : x.name = CName(d.name))
        sub == IF d.k = "seq" THEN d.items ELSE IF d.k = "enum" THEN d.enum ELSE <<>>
    IN  IF d.k \notin {"seq", "enum"} THEN {}
        ELSE IF g = <<>> THEN {Clause("C18.missing", d.name)}
        ELSE Fail(g[1].doc # Descr(d.cmt), "C18.definition",
                  [type |-> d.name, want |-> Descr(d.cmt), got |-> g[1].doc])
             \cup UNION {
               LET cn == CName(sub[j].key)
                   gi == IF j <= Len(g[1].items) /\ g[1].items[j].name = cn
                         THEN <<g[1].items[j]>>
                         ELSE SelectSeq(g[1].items, LAMBDA x : x.name = cn) IN
               IF gi = <<>> THEN {Clause("C18.missing-item", sub[j].key)}
               ELSE Fail(gi[1].doc # DocText(sub[j].cmt), "C18.item",
                         [type |-> d.name, item |-> sub[j].key,
                          want |-> DocText(sub[j].cmt), got |-> gi[1].doc]) :
               j \in 1..Len(sub)} :
    i \in 1..Len(m.defs)}

P18(p, run, o) ==
  AcceptClauses(p, run, o, "C18") \cup
  (IF ~Generated(p, run, o) \/ run.cmd = "cosmos" THEN {} ELSE
   UNION {
     LET f == FilesNamed(o, TypeHeader(p.modules[i], run.cmd))
     IN  IF f = <<>> THEN {Clause("C18.no-header", p.modules[i].name)}
         ELSE DocDiff(p.modules[i], f[1]) :
     i \in 1..Len(p.modules)})

(* ---- what of an observation must not depend on comments and order ------------------------------------- *)
BareItem(g) == [name |-> g.name, kw |-> g.kw, bits |-> g.bits, type |-> g.type,
                total |-> g.total, val |-> g.val, states |-> g.states, limits |-> g.limits]
BarePacket(k) == [name |-> k.name, target |-> k.target, endian |-> k.endian,
                  items |-> [i \in 1..Len(k.items) |-> BareItem(k.items[i])]]
BareFile(f) ==
  CASE f.kind = "h" -> [kind |-> "h", name |-> f.name, ok |-> f.ok,
                        structs |-> Elems(f.structs), enums |-> Elems(f.enums),
                        macros |-> Elems(f.macros)]
    [] f.kind = "c" -> [kind |-> "c", name |-> f.name, ok |-> f.ok, vars |-> Elems(f.vars)]
    [] f.kind = "cosmos" -> [kind |-> "cosmos", name |-> f.name, ok |-> f.ok,
                             packets |-> [i \in 1..Len(f.packets) |-> BarePacket(f.packets[i])]]
    [] f.kind = "bin" -> [kind |-> "bin", name |-> f.name, bytes |-> f.bytes]
    [] OTHER -> [kind |-> "other", name |-> f.name]
Bare(o) == [accepted |-> o.rc = 0, files |-> {BareFile(o.files[i]) : i \in 1..Len(o.files)}]
===========================================================================
