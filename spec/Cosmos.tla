------------------------------- MODULE Cosmos -------------------------------
(* The COSMOS view: a packet is the depth-first list of its leaves.           *)
EXTENDS Fixed

TypeWord(cls) ==
  CASE cls \in {"uint", "enum"} -> "UINT" [] cls = "int" -> "INT"
    [] cls = "float" -> "FLOAT" [] OTHER -> "STRING"

NoLimits == [has |-> FALSE, lo |-> Zero, hi |-> Zero]
LimitsOf(u) ==
  IF u.k # "real" THEN NoLimits
  ELSE IF IsFloat32(u)
  THEN IF Lt(FloatMin, u.lo) \/ Lt(u.hi, FloatMax)
       THEN [has |-> TRUE, lo |-> u.lo, hi |-> u.hi] ELSE NoLimits
  ELSE IF Lt(DoubleMin, u.lo) \/ Lt(u.hi, DoubleMax)
       THEN [has |-> TRUE, lo |-> u.lo, hi |-> u.hi] ELSE NoLimits

\* states an item must show: sequence of names, the i-th having value i - 1
StateNames(d) ==
  IF ~EnumGiven(d) THEN [v \in 1..Len(d.enum) |-> d.enum[v].key]
  ELSE LET pos == [i \in 1..Len(d.enum) |-> ToInt(d.enum[i].pos)]
       IN  [v \in 1..Len(d.enum) |-> d.enum[CHOOSE i \in 1..Len(d.enum) : pos[i] = v - 1].key]

\* elem: the element type; fixed: <<>> or <<comp>>
LeafItem(it, elem, n, fixed, env) ==
  LET r == Repr(elem, env)
      u == Resolve(elem, env)
      isStr == u.k = "str"
      bits == IF isStr THEN 8 * u.len ELSE r.bits
  IN [name   |-> it.key,
      kw     |-> IF n > 0 THEN "ARRAY" ELSE IF fixed # <<>> THEN "ID" ELSE "ITEM",
      bits   |-> bits,
      type   |-> TypeWord(r.cls),
      total  |-> IF n > 0 THEN n * bits ELSE 0,
      fixed  |-> IF n > 0 THEN <<>> ELSE fixed,
      real   |-> u.k = "real",
      states |-> CASE r.cls = "enum" -> StateNames(Target(elem, env))
                   [] u.k = "bool" -> <<"False", "True">>
                   [] OTHER -> <<>>,
      limits |-> LimitsOf(u),
      cmt    |-> it.cmt]

\* elements of an array, of arrays too
RECURSIVE Total(_)
Total(t) == IF t.k = "arr" THEN t.len * Total(t.elem) ELSE 1

RECURSIVE Flatten(_, _, _)
Flatten(d, wc, env) ==
  FlatSeq([i \in 1..Len(d.items) |->
    LET it  == d.items[i]
        cs  == CompAt(wc, it.key)
        sub == it.wc \o Below(wc, it.key)
        fx  == SelectSeq(cs, LAMBDA c : c.k # "wc")
        c   == Core(it.type)
        n   == IF it.type.k = "arr" THEN Total(it.type) ELSE 0
    IN  IF c.k = "ref" /\ env[c.name].k = "seq"
        THEN FlatSeq([j \in 1..(IF n = 0 THEN 1 ELSE n) |-> Flatten(env[c.name], sub, env)])
        ELSE <<LeafItem(it, c, n, fx, env)>>])

Packet(d, env) == [name |-> d.name, cmt |-> d.cmt, items |-> Flatten(d, <<>>, env)]
===========================================================================
