-------------------------------- MODULE Build --------------------------------
(* Constructors of projects, for the small models.                             *)
EXTENDS Properties

NoCmt == [has |-> FALSE, little |-> FALSE, unit |-> "", text |-> ""]
Cmt(text) == [has |-> TRUE, little |-> FALSE, unit |-> "", text |-> text]
CmtOf(text, unit, little) == [has |-> TRUE, little |-> little, unit |-> unit, text |-> text]

(* ---- IEEE 754 patterns of m * 2^e (m an integer below 2^23) ------------------ *)
AbsInt(n) == IF n < 0 THEN 0 - n ELSE n
BitAt(n, i) == IF i < 0 \/ i > 29 THEN 0 ELSE (n \div Pow2(i)) % 2

\* bit i of the pattern without sign: fbits fraction bits, exponent biased by bias
PatBit(m, e, i, fbits, bias) ==
  LET k == SmallBitLen(m) IN
  IF i < fbits THEN BitAt(m, i - (fbits - (k - 1)))
  ELSE BitAt(e + k - 1 + bias, i - fbits)

RECURSIVE ByteSum(_, _, _, _, _, _)
ByteSum(m, e, b, j, fbits, bias) ==
  IF j = 8 THEN 0
  ELSE PatBit(m, e, 8 * b + j, fbits, bias) * Pow2(j) + ByteSum(m, e, b, j + 1, fbits, bias)

F64(n, e) ==
  IF n = 0 THEN Zero
  ELSE [neg |-> n < 0, mag |-> TrimLimbs([b \in 1..8 |-> ByteSum(AbsInt(n), e, b - 1, 0, 52, 1023)])]
F32(n, e) ==
  IF n = 0 THEN <<0, 0, 0, 0>>
  ELSE LET p == [b \in 1..4 |-> ByteSum(AbsInt(n), e, b - 1, 0, 23, 127)]
       IN  IF n < 0 THEN [p EXCEPT ![4] = p[4] + 128] ELSE p

(* ---- types ---------------------------------------------------------------------- *)
TInt(lo, hi)  == [k |-> "int", rng |-> TRUE, lo |-> FromInt(lo), hi |-> FromInt(hi)]
TBig(lo, hi)  == [k |-> "int", rng |-> TRUE, lo |-> lo, hi |-> hi]
TReal(lo, hi) == [k |-> "real", rng |-> TRUE, lo |-> lo, hi |-> hi]
TUnsigned(w)  == TBig(Zero, Pow2Less1Big(w))
TSigned(w)    == TBig(MinusPow2Big(w - 1), Pow2Less1Big(w - 1))
TFloat  == TReal(FloatMin, FloatMax)
TDouble == TReal(DoubleMin, DoubleMax)
TBool   == [k |-> "bool"]
TNull   == [k |-> "null"]
TIntAny == [k |-> "int", rng |-> FALSE, lo |-> Zero, hi |-> Zero]
TRealAny == [k |-> "real", rng |-> FALSE, lo |-> Zero, hi |-> Zero]
TStr(n) == [k |-> "str", len |-> n]
TArr(n, elem) == [k |-> "arr", len |-> n, elem |-> elem]
TRef(n) == [k |-> "ref", name |-> n]

(* ---- fixed values ------------------------------------------------------------------ *)
CInt(key, n) == [key |-> key, k |-> "int", int |-> FromInt(n), f64 |-> F64(n, 0), f32 |-> F32(n, 0),
                 cmt |-> NoCmt]
\* beyond TLC's integers; the harness adds the floating point patterns
CBig(key, b) == [key |-> key, k |-> "int", int |-> b, f64 |-> Zero, f32 |-> <<0, 0, 0, 0>>, cmt |-> NoCmt]
CReal(key, n, e) == [key |-> key, k |-> "real", f64 |-> F64(n, e), f32 |-> F32(n, e), cmt |-> NoCmt]
CBool(key, b) == [key |-> key, k |-> "bool", bool |-> b, cmt |-> NoCmt]
CWc(key, wc) == [key |-> key, k |-> "wc", wc |-> wc, cmt |-> NoCmt, wcmt |-> NoCmt]

(* ---- definitions --------------------------------------------------------------------- *)
Item(key, t) == [key |-> key, type |-> t, cmt |-> NoCmt, wc |-> <<>>, wcmt |-> NoCmt]
ItemWc(key, t, wc) == [key |-> key, type |-> t, cmt |-> NoCmt, wc |-> wc, wcmt |-> NoCmt]
Seq_(name, items) == [k |-> "seq", name |-> name, cmt |-> NoCmt, items |-> items]
Choice_(name, items) == [k |-> "choice", name |-> name, cmt |-> NoCmt, items |-> items]
Simple(name, t) == [k |-> "simple", name |-> name, cmt |-> NoCmt, type |-> t]
EnumItem(key, given, pos) == [key |-> key, pos |-> FromInt(pos), cmt |-> NoCmt, given |-> given]
Enum_(name, its) == [k |-> "enum", name |-> name, cmt |-> NoCmt, enum |-> its]
EnumN(name, base, n) ==
  Enum_(name, [i \in 1..n |-> EnumItem(base \o ToString(i), FALSE, 0)])
Import(from, names) == [from |-> from, names |-> names, cmt |-> NoCmt]
Module_(name, imports, defs) ==
  [name |-> name, imports |-> imports, cmt |-> NoCmt, icmt |-> NoCmt, defs |-> defs]
Project(mods) == [modules |-> mods, malformed |-> FALSE]

Run(cmd, args, msgs, endian) ==
  [cmd |-> cmd, args |-> args, msgs |-> msgs, target |-> IF cmd = "cosmos" THEN "tlm" ELSE "",
   endian |-> endian, missing |-> FALSE]
NamesOf(p) == [i \in 1..Len(p.modules) |-> p.modules[i].name]
\* the runs of the three C commands, and of COSMOS for messages of one module
RunsC(p) == <<Run("cfs", NamesOf(p), <<>>, "none"), Run("c", NamesOf(p), <<>>, "none"),
              Run("binary", NamesOf(p), <<>>, "little-endian"),
              Run("binary", NamesOf(p), <<>>, "big-endian")>>
RunCosmos(mod, msgs) == Run("cosmos", <<mod>>, msgs, "none")
RunsAll(p, mod, msgs) == RunsC(p) \o <<RunCosmos(mod, msgs)>>

RECURSIVE SeqOfSet(_)       \* some fixed order
SeqOfSet(S) == IF S = {} THEN <<>>
               ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOfSet(S \ {x})
Tagged(s, Test(_)) == SelectSeq(s, Test)
===========================================================================
