------------------------------- MODULE Layout -------------------------------
(* Bit-exact representation: widths, C structures, enumerations.             *)
EXTENDS Validity

Max2(a, b) == IF a > b THEN a ELSE b

\* width of an INTEGER: minimal for unsigned, next machine size for signed
SignedBits(lo, hi) ==
  IF Le(MinusPow2Big(7), lo) /\ Le(hi, Pow2Less1Big(7)) THEN 8
  ELSE IF Le(MinusPow2Big(15), lo) /\ Le(hi, Pow2Less1Big(15)) THEN 16
  ELSE IF Le(MinusPow2Big(31), lo) /\ Le(hi, Pow2Less1Big(31)) THEN 32
  ELSE 64
IntBits(t) == IF t.lo.neg THEN SignedBits(t.lo, t.hi) ELSE Max2(1, MagBits(t.hi.mag))

IsFloat32(t) == Le(FloatMin, t.lo) /\ Le(t.hi, FloatMax)
RealBits(t)  == IF IsFloat32(t) THEN 32 ELSE 64

EnumBits(d) == Max2(1, SmallBitLen(Len(d.enum) - 1))
\* storage of a packed C enumeration that is not a bit-field
EnumStorage(d) == IF Len(d.enum) <= 256 THEN 8 ELSE IF Len(d.enum) <= 65536 THEN 16 ELSE 32

\* representation of a scalar type (simple definitions already resolved)
\* cls: class of the value; bits: width; bf: packed as a bit-field in C
Repr(t, env) ==
  LET u == Resolve(t, env) IN
  CASE u.k = "int" ->
         [cls |-> IF u.lo.neg THEN "int" ELSE "uint", bits |-> IntBits(u),
          bf |-> ~u.lo.neg /\ IntBits(u) \notin {8, 16, 32, 64}, ref |-> ""]
    [] u.k = "real" -> [cls |-> "float", bits |-> RealBits(u), bf |-> FALSE, ref |-> ""]
    [] u.k = "bool" -> [cls |-> "uint", bits |-> 1, bf |-> TRUE, ref |-> ""]
    [] u.k = "str"  -> [cls |-> "char", bits |-> 8, bf |-> FALSE, ref |-> ""]
    [] u.k = "ref" /\ env[u.name].k = "enum" ->
         [cls |-> "enum", bits |-> EnumBits(env[u.name]), bf |-> TRUE, ref |-> CName(u.name)]
    [] OTHER -> [cls |-> "struct", bits |-> 0, bf |-> FALSE, ref |-> CName(u.name)]

RoundUp8(n) == ((n + 7) \div 8) * 8

(* C structure of a SEQUENCE: members with bit offset, element width and     *)
(* number of elements (0: not an array).                                     *)
RECURSIVE StructBits(_, _), Members(_, _, _, _)
ElemBits(t, env) ==
  LET r == Repr(t, env) IN
  IF r.cls = "struct" THEN StructBits(Target(t, env), env)
  ELSE IF r.cls = "enum" THEN EnumStorage(Target(t, env))
  ELSE r.bits

Member(it, off, env) ==
  LET t == it.type IN
  CASE t.k = "arr" ->
         LET r == Repr(t.elem, env) IN
         [name |-> CName(it.key), off |-> RoundUp8(off), bits |-> ElemBits(t.elem, env),
          cls |-> r.cls, ref |-> r.ref, n |-> t.len]
    [] t.k = "str" ->
         [name |-> CName(it.key), off |-> RoundUp8(off), bits |-> 8,
          cls |-> "char", ref |-> "", n |-> t.len]
    [] OTHER ->
         LET r == Repr(t, env) IN
         [name |-> CName(it.key), off |-> IF r.bf THEN off ELSE RoundUp8(off),
          bits |-> IF r.cls = "struct" THEN StructBits(Target(t, env), env) ELSE r.bits,
          cls |-> r.cls, ref |-> r.ref, n |-> 0]

EndOf(m) == m.off + m.bits * (IF m.n = 0 THEN 1 ELSE m.n)

Members(items, i, off, env) ==
  IF i > Len(items) THEN <<>>
  ELSE LET m == Member(items[i], off, env)
       IN  <<m>> \o Members(items, i + 1, EndOf(m), env)

CMembers(d, env) == Members(d.items, 1, 0, env)

StructBits(d, env) ==
  LET ms == CMembers(d, env)
  IN  IF ms = <<>> THEN 0 ELSE RoundUp8(EndOf(ms[Len(ms)]))

CStruct(d, env) ==
  [name |-> CName(d.name), bytes |-> StructBits(d, env) \div 8, members |-> CMembers(d, env)]

\* no padding anywhere inside (last member may end inside a byte)
Dense(d, env) ==
  LET ms == CMembers(d, env) IN
  \A i \in 2..Len(ms) : ms[i].off = EndOf(ms[i - 1])

CEnum(d) ==
  [name |-> CName(d.name),
   items |-> {[name |-> CName(d.enum[i].key), val |-> EnumPos(d, i)] : i \in 1..Len(d.enum)}]
===========================================================================
