------------------------------- MODULE Num -------------------------------
(* Numbers beyond TLC's 32-bit integers.                                   *)
(*                                                                          *)
(* A big number is [neg |-> BOOLEAN, mag |-> <<b1, b2, ...>>] with mag the  *)
(* little-endian base-256 magnitude without trailing zero limb; zero is     *)
(* [neg |-> FALSE, mag |-> <<>>].  IEEE doubles are represented by the same *)
(* record, with the magnitude being the bit pattern without the sign bit:   *)
(* the order of the patterns is the order of the numbers.                   *)
EXTENDS Naturals, Integers, Sequences

Zero == [neg |-> FALSE, mag |-> <<>>]

RECURSIVE MagCmpFrom(_, _, _)
MagCmpFrom(a, b, i) ==
  IF i = 0 THEN 0
  ELSE IF a[i] < b[i] THEN -1
  ELSE IF a[i] > b[i] THEN 1
  ELSE MagCmpFrom(a, b, i - 1)

MagCmp(a, b) ==
  IF Len(a) < Len(b) THEN -1
  ELSE IF Len(a) > Len(b) THEN 1
  ELSE MagCmpFrom(a, b, Len(a))

\* -1, 0, 1
Cmp(x, y) ==
  IF x.neg /\ ~y.neg THEN -1
  ELSE IF ~x.neg /\ y.neg THEN 1
  ELSE IF x.neg THEN MagCmp(y.mag, x.mag)
  ELSE MagCmp(x.mag, y.mag)

Le(x, y) == Cmp(x, y) <= 0
Lt(x, y) == Cmp(x, y) < 0

Pow2(n) == 2 ^ n        \* n < 31

RECURSIVE SmallBitLen(_)
SmallBitLen(n) == IF n = 0 THEN 0 ELSE 1 + SmallBitLen(n \div 2)

\* number of bits of a magnitude (0 for zero)
MagBits(m) == IF m = <<>> THEN 0 ELSE 8 * (Len(m) - 1) + SmallBitLen(m[Len(m)])

RECURSIVE TrimLimbs(_)
TrimLimbs(m) ==
  IF m = <<>> THEN <<>>
  ELSE IF m[Len(m)] = 0 THEN TrimLimbs(SubSeq(m, 1, Len(m) - 1))
  ELSE m

RECURSIVE NatLimbs(_)
NatLimbs(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o NatLimbs(n \div 256)

FromInt(n) == IF n < 0 THEN [neg |-> TRUE, mag |-> NatLimbs(0 - n)]
                       ELSE [neg |-> FALSE, mag |-> NatLimbs(n)]

\* 2^k as a magnitude, 2^k - 1 as a magnitude
MagPow2(k) == [i \in 1..(k \div 8 + 1) |->
                 IF i = k \div 8 + 1 THEN Pow2(k % 8) ELSE 0]
MagPow2Less1(k) ==
  TrimLimbs([i \in 1..((k + 7) \div 8) |->
     IF i < (k + 7) \div 8 \/ k % 8 = 0 THEN 255 ELSE Pow2(k % 8) - 1])

Pow2Big(k)      == [neg |-> FALSE, mag |-> MagPow2(k)]
Pow2Less1Big(k) == [neg |-> FALSE, mag |-> MagPow2Less1(k)]
MinusPow2Big(k) == [neg |-> TRUE, mag |-> MagPow2(k)]

\* value of a small magnitude (fewer than 31 bits)
RECURSIVE MagToNat(_)
MagToNat(m) == IF m = <<>> THEN 0 ELSE m[1] + 256 * MagToNat(Tail(m))
IsSmall(x)  == MagBits(x.mag) < 31
ToInt(x)    == IF x.neg THEN 0 - MagToNat(x.mag) ELSE MagToNat(x.mag)

\* n low limbs of a magnitude, zero padded
PadLimbs(m, n) == [i \in 1..n |-> IF i <= Len(m) THEN m[i] ELSE 0]

\* two's complement, n bytes, least significant first
RECURSIVE NegBytes(_, _)   \* carry in
NegBytes(b, carry) ==
  IF b = <<>> THEN <<>>
  ELSE LET v == (255 - b[1]) + carry
       IN  <<v % 256>> \o NegBytes(Tail(b), v \div 256)

TwosComplement(x, n) ==
  IF x.neg THEN NegBytes(PadLimbs(x.mag, n), 1) ELSE PadLimbs(x.mag, n)

RevBytes(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* bit i (0 = least significant of the first byte) of a byte sequence
BitOf(bytes, i) == (bytes[(i \div 8) + 1] \div Pow2(i % 8)) % 2

\* the largest finite double, and 3.4e38, as bit patterns (little endian)
DoubleMax == [neg |-> FALSE, mag |-> <<255, 255, 255, 255, 255, 255, 239, 127>>]
DoubleMin == [neg |-> TRUE,  mag |-> <<255, 255, 255, 255, 255, 255, 239, 127>>]
FloatMax  == [neg |-> FALSE, mag |-> <<173, 223, 140, 199, 51, 249, 239, 71>>]
FloatMin  == [neg |-> TRUE,  mag |-> <<173, 223, 140, 199, 51, 249, 239, 71>>]
===========================================================================
