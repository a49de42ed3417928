------------------------------ MODULE Validity ------------------------------
(* Which projects must be rejected (and why), and which must be accepted.    *)
EXTENDS Model

PosixInt == [n \in {"Int8-t", "Int16-t", "Int32-t", "Int64-t"} |->
               CASE n = "Int8-t" -> 7 [] n = "Int16-t" -> 15
                 [] n = "Int32-t" -> 31 [] OTHER -> 63]
PosixUint == [n \in {"Uint8-t", "Uint16-t", "Uint32-t", "Uint64-t"} |->
               CASE n = "Uint8-t" -> 8 [] n = "Uint16-t" -> 16
                 [] n = "Uint32-t" -> 32 [] OTHER -> 64]
PosixNames == DOMAIN PosixInt \cup DOMAIN PosixUint \cup {"Float", "Double"}

PosixOk(d) ==
  LET t == d.type IN
  CASE d.name \in DOMAIN PosixInt ->
         /\ t.k = "int" /\ t.rng
         /\ t.lo = MinusPow2Big(PosixInt[d.name])
         /\ t.hi = Pow2Less1Big(PosixInt[d.name])
    [] d.name \in DOMAIN PosixUint ->
         /\ t.k = "int" /\ t.rng
         /\ t.lo = Zero
         /\ t.hi = Pow2Less1Big(PosixUint[d.name])
    [] d.name = "Float"  -> t.k = "real" /\ t.rng /\ t.lo = FloatMin /\ t.hi = FloatMax
    [] d.name = "Double" -> t.k = "real" /\ t.rng /\ t.lo = DoubleMin /\ t.hi = DoubleMax
    [] OTHER -> TRUE

IntTooWide(t) ==
  IF t.lo.neg THEN Lt(t.lo, MinusPow2Big(63)) \/ Lt(Pow2Less1Big(63), t.hi)
              ELSE Lt(Pow2Less1Big(64), t.hi)
RealTooWide(t) == Lt(t.lo, DoubleMin) \/ Lt(DoubleMax, t.hi)

\* positions: all zero means "not given"
EnumGiven(d) == \E i \in 1..Len(d.enum) : d.enum[i].pos # Zero
EnumOk(d) ==
  \/ ~EnumGiven(d)
  \/ {d.enum[i].pos : i \in 1..Len(d.enum)} = {FromInt(i) : i \in 0..(Len(d.enum) - 1)}
EnumPos(d, i) == IF EnumGiven(d) THEN ToInt(d.enum[i].pos) ELSE i - 1

HasDup(s) == Cardinality({s[i] : i \in 1..Len(s)}) # Len(s)
KeySeq(items) == [i \in 1..Len(items) |-> items[i].key]

RECURSIVE WcDup(_)
WcDup(wc) ==
  \/ HasDup(KeySeq(wc))
  \/ \E i \in 1..Len(wc) : wc[i].k = "wc" /\ WcDup(wc[i].wc)

\* does a fixed value belong to a type
ValueOk(t, c, env) ==
  IF t.k = "ref" /\ t.name \notin DOMAIN env THEN TRUE
  ELSE LET u == Resolve(t, env) IN
  CASE u.k = "int"  -> c.k = "int" /\ (u.rng => Le(u.lo, c.int) /\ Le(c.int, u.hi))
    [] u.k = "real" -> c.k \in {"int", "real"}
                         /\ (u.rng => Le(u.lo, c.f64) /\ Le(c.f64, u.hi))
    [] u.k = "bool" -> c.k = "bool"
    [] u.k \in {"arr", "str"} -> FALSE
    [] u.k = "ref" /\ u.name \in DOMAIN env /\ env[u.name].k = "enum" ->
         /\ c.k = "int" /\ ~c.int.neg /\ IsSmall(c.int)
         /\ ToInt(c.int) < Len(env[u.name].enum)
    [] u.k = "ref" /\ u.name \in DOMAIN env /\ IsComposite(env[u.name]) -> FALSE
    [] OTHER -> TRUE

RECURSIVE WcReasons(_, _, _)
WcReasons(t, wc, env) ==
  IF Core(t).k # "ref" \/ Refs(t) \cap DOMAIN env = {} THEN {}
  ELSE LET d == Target(t, env) IN
       IF d.k # "seq" THEN {"wc-bad-target"}
       ELSE UNION {
         IF wc[i].key \notin Keys(d.items) THEN {"wc-unknown-key"}
         ELSE LET it == ItemAt(d.items, wc[i].key) IN
              IF wc[i].k = "wc" THEN WcReasons(it.type, wc[i].wc, env)
              ELSE IF ~ValueOk(it.type, wc[i], env)
              THEN {"wc-bad-value"} ELSE {} :
         i \in 1..Len(wc)}

\* C01: dangling references
ReferenceReasons(p, env) ==
  UNION {
    LET m  == p.modules[mi]
        ok == DefNames(m) \cup
              UNION {Elems(m.imports[j].names) : j \in 1..Len(m.imports)}
    IN  (IF \E d \in Elems(m.defs) : \E t \in TypesIn(d) : ~(Refs(t) \subseteq ok)
         THEN {"undefined-type"} ELSE {})
        \cup
        (IF \E j \in 1..Len(m.imports) : m.imports[j].from \notin ModuleNames(p)
         THEN {"import-missing-module"} ELSE {})
        \cup
        (IF \E j \in 1..Len(m.imports) :
              /\ m.imports[j].from \in ModuleNames(p)
              /\ \A x \in Elems(p.modules) : x.name = m.imports[j].from =>
                    ~(Elems(m.imports[j].names) \subseteq DefNames(x))
         THEN {"import-missing-name"} ELSE {})
        \cup
        UNION {IF IsComposite(m.defs[k])
               THEN UNION {IF m.defs[k].items[i].wc # <<>>
                           THEN WcReasons(m.defs[k].items[i].type,
                                          m.defs[k].items[i].wc, env)
                           ELSE {} : i \in 1..Len(m.defs[k].items)}
               ELSE {} : k \in 1..Len(m.defs)} :
    mi \in 1..Len(p.modules)}

\* C02: clashes
NameReasons(p, run, env) ==
  LET mods == [i \in 1..Len(p.modules) |-> p.modules[i].name]
      all  == AllDefs(p)
  IN  (IF HasDup(mods) THEN {"dup-module"} ELSE {})
      \cup (IF HasDup([i \in 1..Len(all) |-> all[i].name]) THEN {"dup-def"} ELSE {})
      \cup (IF \E i \in 1..Len(all) :
                 \/ IsComposite(all[i]) /\
                      (\/ HasDup(KeySeq(all[i].items))
                       \/ \E j \in 1..Len(all[i].items) : WcDup(all[i].items[j].wc))
                 \/ all[i].k = "enum" /\ HasDup(KeySeq(all[i].enum))
            THEN {"dup-key"} ELSE {})
      \cup (IF run.cmd # "cosmos" /\ HasDup(run.args) THEN {"dup-arg"} ELSE {})
      \cup (IF run.cmd # "cosmos" /\ Elems(run.args) # Elems(mods)
            THEN {"args-mismatch"} ELSE {})
      \cup (IF run.cmd = "cosmos" /\ Elems(run.args) \ Elems(mods) # {}
            THEN {"unknown-module"} ELSE {})
      \cup (IF run.cmd = "cosmos" /\
               \E g \in Elems(run.msgs) :
                 ~\E m \in Elems(p.modules) :
                    m.name \in Elems(run.args) /\ g \in DefNames(m)
            THEN {"unknown-message"} ELSE {})

\* C03: value domains
DomainReasons(p, env) ==
  LET all == AllDefs(p)
      ts  == UNION {TypesIn(all[i]) : i \in 1..Len(all)}
      cs  == UNION {CmtsIn(all[i]) : i \in 1..Len(all)}
             \cup {p.modules[i].cmt : i \in 1..Len(p.modules)}
             \cup {p.modules[i].icmt : i \in 1..Len(p.modules)}
             \cup UNION {{p.modules[i].imports[j].cmt : j \in 1..Len(p.modules[i].imports)} :
                           i \in 1..Len(p.modules)}
  IN  (IF \E t \in ts : t.k = "null" THEN {"null-type"} ELSE {})
      \cup (IF \E t \in ts : t.k \in {"int", "real"} /\ t.rng /\ Lt(t.hi, t.lo)
            THEN {"range-inverted"} ELSE {})
      \cup (IF \E t \in ts : t.k = "int" /\ t.rng /\ IntTooWide(t)
            THEN {"int-too-wide"} ELSE {})
      \cup (IF \E t \in ts : t.k = "real" /\ t.rng /\ RealTooWide(t)
            THEN {"real-too-wide"} ELSE {})
      \cup (IF \E t \in ts : t.k \in {"arr", "str"} /\ t.len < 0
            THEN {"negative-size"} ELSE {})
      \cup (IF \E i \in 1..Len(all) : all[i].name \in PosixNames /\ (all[i].k # "simple" \/ ~PosixOk(all[i]))
            THEN {"posix-mismatch"} ELSE {})
      \cup (IF \E i \in 1..Len(all) : all[i].k = "enum" /\ ~EnumOk(all[i])
            THEN {"enum-positions"} ELSE {})
      \cup (IF \E c \in cs : c.has /\ BadComment(c.text)
            THEN {"bad-comment"} ELSE {})

\* C04: cycles
CycleReasons(p, env) ==
  (IF Cyclic(ImportEdges(p)) THEN {"cycle-import"} ELSE {})
  \cup (IF Cyclic(TypeEdges(env)) THEN {"cycle-type"} ELSE {})

Reasons(p, run) ==
  IF run.missing THEN {"missing-file"}
  ELSE IF p.malformed THEN {"malformed"}
  ELSE LET env == Env(p) IN
       ReferenceReasons(p, env) \cup NameReasons(p, run, env)
       \cup DomainReasons(p, env) \cup CycleReasons(p, env)

ReasonsOfC01 == {"missing-file", "malformed", "undefined-type", "import-missing-module",
                 "import-missing-name", "wc-unknown-key", "wc-bad-target"}
ReasonsOfC02 == {"dup-module", "dup-def", "dup-key", "dup-arg", "args-mismatch",
                 "unknown-module", "unknown-message"}
ReasonsOfC03 == {"null-type", "range-inverted", "int-too-wide", "real-too-wide",
                 "posix-mismatch", "negative-size", "enum-positions", "bad-comment", "wc-bad-value"}
ReasonsOfC04 == {"cycle-import", "cycle-type"}

(* ------------------------------------------------------------------------ *)
(* Supported: the constructs the generators are meant to handle.  A project  *)
(* that is valid but not supported may be accepted or refused.               *)
ScalarOk(t) ==
  \/ t.k \in {"int", "real"} /\ t.rng
  \/ t.k = "bool"

CBitField(t, env) ==      \* a scalar that C packs into a bit-field
  LET u == Resolve(t, env) IN
  \/ u.k = "bool"
  \/ u.k = "int" /\ ~u.lo.neg /\ MagBits(u.hi.mag) \notin {8, 16, 32, 64}

ElemOk(t, env, cmd) ==    \* array elements
  /\ t.k = "ref" /\ t.name \in DOMAIN env
  /\ LET d == env[t.name] IN
     \/ d.k = "enum"
     \/ d.k = "seq"
     \/ d.k = "simple" /\ ScalarOk(d.type) /\ (cmd # "cosmos" => ~CBitField(t, env))

MemberOk(t, env, cmd) ==
  CASE t.k = "arr" -> /\ t.len > 0
                      /\ \/ ElemOk(t.elem, env, cmd)
                         \/ (cmd = "cosmos" /\ t.elem.k = "bool")
    [] t.k = "str" -> t.len > 0
    [] t.k = "ref" -> /\ t.name \in DOMAIN env
                      /\ \/ env[t.name].k \in {"enum", "seq"}
                         \/ env[t.name].k = "simple" /\ ScalarOk(env[t.name].type)
    [] OTHER -> ScalarOk(t)

\* does any type below (and including) d carry its own fixed values
RECURSIVE HasOwnWc(_, _)
HasOwnWc(d, env) ==
  \E i \in 1..Len(d.items) :
     \/ d.items[i].wc # <<>>
     \/ LET c == Core(d.items[i].type) IN
        c.k = "ref" /\ env[c.name].k = "seq" /\ HasOwnWc(env[c.name], env)

ByteScalar(t, env) ==     \* what the binary command can encode
  LET u == Resolve(t, env) IN
  \/ u.k = "real" /\ u.rng
  \/ u.k = "int" /\ u.rng /\ (u.lo.neg \/ MagBits(u.hi.mag) \in {8, 16, 32, 64})

IdentKeys == {"packet-version-number", "packet-type-is-cmd",
              "sec-hdr-flag-is-present", "application-process-identifier"}

\* WITH COMPONENTS wc on a member of type t is one the command handles
RECURSIVE WcOk(_, _, _, _)
WcOk(t, wc, env, cmd) ==
  /\ t.k = "ref" /\ t.name \in DOMAIN env /\ env[t.name].k = "seq"
  /\ LET d == env[t.name] IN
     \A i \in 1..Len(wc) :
        LET it == ItemAt(d.items, wc[i].key) IN
        IF wc[i].k = "wc"
        THEN /\ WcOk(it.type, wc[i].wc, env, cmd)
             /\ cmd = "cfs" /\ wc[i].key = "primary" =>
                  \A j \in 1..Len(wc[i].wc) :
                     /\ wc[i].wc[j].key = "packet-identification"
                     /\ wc[i].wc[j].k = "wc"
                     /\ \A x \in Elems(wc[i].wc[j].wc) :
                          x.key \in IdentKeys /\ x.k \in {"int", "bool"}
        ELSE /\ it.type.k \notin {"arr", "str"}
             /\ cmd = "binary" => ByteScalar(it.type, env)
  /\ cmd \in {"c", "binary"} => ~HasOwnWc(env[t.name], env)

\* a value fixed twice: by the member itself and by an enclosing one (several WITH COMPONENTS may
\* well fix different members of one component)
Below(wc, key) == FlatSeq(LET c == SelectSeq(wc, LAMBDA x : x.key = key /\ x.k = "wc")
                          IN  [i \in 1..Len(c) |-> c[i].wc])
FixedTwice(wc) == \E i, j \in 1..Len(wc) : i # j /\ wc[i].key = wc[j].key /\ wc[i].k # "wc"
RECURSIVE WcClash(_, _, _)
WcClash(d, wc, env) ==
  \/ FixedTwice(wc)
  \/ \E i \in 1..Len(d.items) :
       LET it == d.items[i] IN
       it.type.k = "ref" /\ env[it.type.name].k = "seq" /\
         WcClash(env[it.type.name], it.wc \o Below(wc, it.key), env)

DefSupported(d, env, cmd) ==
  CASE d.k = "enum" -> TRUE
    [] d.k = "simple" -> TRUE
    [] d.k = "choice" -> FALSE
    [] OTHER -> \A i \in 1..Len(d.items) :
                   /\ MemberOk(d.items[i].type, env, cmd)
                   /\ d.items[i].wc # <<>> =>
                        /\ WcOk(d.items[i].type, d.items[i].wc, env, cmd)
                        /\ ~WcClash(env[d.items[i].type.name], d.items[i].wc, env)

\* definitions a COSMOS message consists of
MsgClosure(msgs, env) ==
  ReachFrom(msgs, [n \in DOMAIN env |->
     IF IsComposite(env[n])
     THEN {r \in UNION {Refs(env[n].items[i].type) : i \in 1..Len(env[n].items)} :
             r \in DOMAIN env}
     ELSE {}], Cardinality(DOMAIN env))

\* what a valid member means is defined for every element type; a command that cannot generate it must
\* say so, and may not generate something else
MemberMeans(t, env) ==
  LET c == Core(t) IN
  /\ t.k = "arr" => Within(t) \subseteq {x \in Within(t) : x.k = "arr" => x.len > 0}
  /\ CASE c.k = "ref" -> /\ c.name \in DOMAIN env
                         /\ \/ env[c.name].k \in {"enum", "seq"}
                            \/ env[c.name].k = "simple" /\ ScalarOk(env[c.name].type)
       [] c.k = "str" -> c.len > 0
       [] OTHER -> ScalarOk(c)
DefMeans(d, env) ==
  d.k = "seq" /\ \A i \in 1..Len(d.items) :
    /\ MemberMeans(d.items[i].type, env)
    /\ d.items[i].wc # <<>> =>
         WcOk(d.items[i].type, d.items[i].wc, env, "cosmos") /\ ~WcClash(env[d.items[i].type.name], d.items[i].wc, env)
MessagesMean(p, run) ==
  LET env == Env(p) IN
  \A n \in MsgClosure(Elems(run.msgs), env) : env[n].k = "seq" => DefMeans(env[n], env)
NoChoice(p) == \A d \in Elems(AllDefs(p)) : d.k # "choice"

Supported(p, run) ==
  LET env == Env(p) IN
  IF run.cmd = "cosmos"
  THEN /\ \A g \in Elems(run.msgs) : env[g].k = "seq"
       /\ \A n \in MsgClosure(Elems(run.msgs), env) : DefSupported(env[n], env, "cosmos")
  ELSE /\ \A n \in DOMAIN env : DefSupported(env[n], env, run.cmd)
       /\ run.cmd = "binary" => run.endian \in {"little-endian", "big-endian"}
===========================================================================
