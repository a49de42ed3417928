-------------------------------- MODULE Fixed --------------------------------
(* Fixed values (WITH COMPONENTS): message ids, macros, C variables, images.  *)
EXTENDS Layout

CompAt(wc, key) == SelectSeq(wc, LAMBDA c : c.key = key)

(* ---- cFS macros ---------------------------------------------------------- *)
SmallVal(c) == IF c.k = "bool" THEN (IF c.bool THEN 1 ELSE 0) ELSE ToInt(c.int)
ShiftOf(key) ==
  CASE key = "packet-version-number" -> 13
    [] key = "packet-type-is-cmd" -> 12
    [] key = "sec-hdr-flag-is-present" -> 11
    [] OTHER -> 0

MsgId(primary) ==          \* primary: the components of the primary header
  SumSeq(FlatSeq([i \in 1..Len(primary) |->
    [j \in 1..Len(primary[i].wc) |->
       SmallVal(primary[i].wc[j]) * Pow2(ShiftOf(primary[i].wc[j].key))]]))

RECURSIVE MacrosOf(_, _)
MacrosOf(seqName, wc) ==
  UNION {
    IF wc[i].k = "wc"
    THEN IF wc[i].key = "primary"
         THEN {[name |-> MacroName(seqName) \o "_MID",
                k |-> "int", int |-> FromInt(MsgId(wc[i].wc))]}
         ELSE MacrosOf(seqName, wc[i].wc)
    ELSE {CASE wc[i].k = "bool" ->
                 [name |-> MacroName(seqName) \o "_" \o MacroName(wc[i].key),
                  k |-> "bool", bool |-> wc[i].bool]
            [] wc[i].k = "int" ->
                 [name |-> MacroName(seqName) \o "_" \o MacroName(wc[i].key),
                  k |-> "int", int |-> wc[i].int]
            [] OTHER ->
                 [name |-> MacroName(seqName) \o "_" \o MacroName(wc[i].key),
                  k |-> "real", f64 |-> wc[i].f64]} :
    i \in 1..Len(wc)}

SeqMacros(d) ==
  UNION {IF d.items[i].wc = <<>> THEN {} ELSE MacrosOf(d.name, d.items[i].wc) :
           i \in 1..Len(d.items)}

ModuleMacros(m) ==
  UNION {IF m.defs[i].k = "seq" THEN SeqMacros(m.defs[i]) ELSE {} : i \in 1..Len(m.defs)}

\* a macro name with two different values: nothing is promised about it
Unambiguous(macros) == {x \in macros : ~\E y \in macros : y.name = x.name /\ y # x}

(* ---- values as bytes ------------------------------------------------------ *)
RealBytes(t, c) ==
  IF IsFloat32(t) THEN c.f32
  ELSE LET b == PadLimbs(c.f64.mag, 8)
       IN  IF c.f64.neg THEN [b EXCEPT ![8] = b[8] + 128] ELSE b

\* least significant byte first
ValueBytes(t, c, env) ==
  LET u == Resolve(t, env) IN
  CASE u.k = "int"  -> TwosComplement(c.int, (IntBits(u) + 7) \div 8)
    [] u.k = "bool" -> <<IF c.bool THEN 1 ELSE 0>>
    [] u.k = "real" -> RealBytes(u, c)
    [] OTHER        -> TwosComplement(c.int, (EnumBits(env[u.name]) + 7) \div 8)

(* ---- C variables ----------------------------------------------------------- *)
\* fixed leaves of type d under components wc, base: bit offset of the struct
RECURSIVE Leaves(_, _, _, _)
Leaves(d, wc, base, env) ==
  LET ms == CMembers(d, env) IN
  UNION {
    LET cs == CompAt(wc, d.items[i].key) IN
    IF cs = <<>> THEN {}
    ELSE IF cs[1].k = "wc"
    THEN Leaves(Target(d.items[i].type, env), cs[1].wc, base + ms[i].off, env)
    ELSE {[off |-> base + ms[i].off, bits |-> ms[i].bits,
           bytes |-> ValueBytes(d.items[i].type, cs[1], env)]} :
    i \in 1..Len(d.items)}

FixedLeaves(d, env) ==
  LET ms == CMembers(d, env) IN
  UNION {IF d.items[i].wc = <<>> THEN {}
         ELSE Leaves(Target(d.items[i].type, env), d.items[i].wc, ms[i].off, env) :
           i \in 1..Len(d.items)}

HasFixed(d) == d.k = "seq" /\ \E i \in 1..Len(d.items) : d.items[i].wc # <<>>

\* bit i of the variable
ImageBit(leaves, i) ==
  LET here == {l \in leaves : l.off <= i /\ i < l.off + l.bits}
  IN  IF here = {} THEN 0
      ELSE LET l == CHOOSE l \in here : TRUE IN BitOf(l.bytes, i - l.off)

ImageMatches(d, env, bytes) ==
  LET leaves == FixedLeaves(d, env)
      n      == StructBits(d, env)
      touched == UNION {(l.off \div 8)..((l.off + l.bits - 1) \div 8) : l \in leaves}
  IN  /\ Len(bytes) * 8 = n
      /\ \A b \in 0..(Len(bytes) - 1) :
           IF b \in touched
           THEN \A k \in 0..7 : BitOf(bytes, 8 * b + k) = ImageBit(leaves, 8 * b + k)
           ELSE bytes[b + 1] = 0

(* ---- binary images ---------------------------------------------------------- *)
RECURSIVE BinOf(_, _, _, _)
BinOf(d, wc, big, env) ==
  FlatSeq([i \in 1..Len(d.items) |->
    LET cs == CompAt(wc, d.items[i].key) IN
    IF cs = <<>> THEN <<>>
    ELSE IF cs[1].k = "wc" THEN BinOf(Target(d.items[i].type, env), cs[1].wc, big, env)
    ELSE LET b == ValueBytes(d.items[i].type, cs[1], env)
         IN  IF big THEN RevBytes(b) ELSE b])

Image(d, big, env) ==
  FlatSeq([i \in 1..Len(d.items) |->
    IF d.items[i].wc = <<>> THEN <<>>
    ELSE BinOf(Target(d.items[i].type, env), d.items[i].wc, big, env)])
===========================================================================
