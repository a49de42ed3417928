-------------------------------- MODULE Small --------------------------------
(* Small models: for each family every project of a small scope is built, slot  *)
(* by slot, the properties of the specification itself are checked on it, and   *)
(* it is exported with the runs to replay in the real command.                  *)
(*   IOEnv.FAMILY  the family          IOEnv.CASES  file for the cases          *)
EXTENDS Build, Json, CSV, IOUtils

VARIABLE v            \* the choices made so far

Family == IOEnv.FAMILY

Perms3 == {<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>}
M == <<"ma", "mb", "mc">>
Ty == <<"Ta", "Tb", "Tc">>
L == <<"La", "Lb", "Lc">>

In(S, n) == SelectSeq([i \in 1..n |-> i], LAMBDA i : i \in S)     \* a set of indices in order
Map(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
One == FromInt(1)

Case(p, runs) == [p |-> p, runs |-> runs]

(* ---- import graphs: every graph over three modules -------------------------------- *)
ImportModule(i, targets) ==
  Module_(M[i], Map(In(targets, 3), LAMBDA j : Import(M[j], <<L[j]>>)),
          <<Simple(L[i], TUnsigned(8)),
            Seq_(Ty[i], <<Item("own", TUnsigned(5))>>
                       \o Map(In(targets, 3), LAMBDA j : Item("x" \o ToString(j), TRef(L[j]))))>>)
ImportsCase(w) ==
  LET p == Project([i \in 1..3 |-> ImportModule(i, w[i])])
  IN  Case(p, RunsAll(p, M[1], <<Ty[1]>>))

(* ---- imported names: two modules, each imports from itself, the other, a missing one *)
NamesCase(w) ==
  LET tgt == <<"ma", "mb", "zz">>
      mod(i) == Module_(M[i],
                  FlatSeq([j \in 1..3 |->
                    IF w[i][j] = 0 THEN <<>>
                    ELSE <<Import(tgt[j], <<IF w[i][j] = 2 THEN "Nowhere" ELSE IF j = 3 THEN "Lc" ELSE L[j]>>)>>]),
                  <<Simple(L[i], TUnsigned(8)), Seq_(Ty[i], <<Item("own", TRef(L[i]))>>)>>)
      p == Project([i \in 1..2 |-> mod(i)])
  IN  Case(p, RunsAll(p, M[1], <<Ty[1]>>))

(* ---- type graphs --------------------------------------------------------------------- *)
TypesCase(w) ==
  LET d(i) == Seq_(Ty[i], <<Item("own", TUnsigned(5))>>
                   \o Map(In(w[i], 3), LAMBDA j : Item("x" \o ToString(j), TRef(Ty[j]))))
      p == Project(<<Module_("ma", <<>>, [i \in 1..3 |-> d(i)])>>)
  IN  Case(p, RunsAll(p, "ma", <<Ty[1]>>))

\* two composite types, SEQUENCE or CHOICE, containing each other directly or in arrays
MixedCase(w) ==
  LET member(j, e) == Item("x" \o ToString(j), IF e = 2 THEN TArr(2, TRef(Ty[j])) ELSE TRef(Ty[j]))
      its(i) == <<Item("own", TUnsigned(5))>>
                \o (IF w[i][2] = 0 THEN <<>> ELSE <<member(1, w[i][2])>>)
                \o (IF w[i][3] = 0 THEN <<>> ELSE <<member(2, w[i][3])>>)
      d(i) == IF w[i][1] = "seq" THEN Seq_(Ty[i], its(i)) ELSE Choice_(Ty[i], its(i))
      p == Project(<<Module_("ma", <<>>, <<d(1), d(2), Seq_("Other", <<Item("k", TBool)>>)>>)>>)
  IN  Case(p, RunsAll(p, "ma", <<"Other">>))

(* ---- where a name is defined, from where it is imported, how it is used ---------------- *)
VisibilityCase(w) ==
  LET where == w[1]
      from  == w[2]
      use   == w[3]
      def   == IF w[4] = "seq" THEN Seq_("Named", <<Item("k", TUnsigned(8))>>) ELSE Simple("Named", TUnsigned(8))
      ty    == IF use = "array" THEN TArr(3, TRef("Named")) ELSE TRef("Named")
      user  == CASE use = "choice" -> Choice_("User", <<Item("k", TBool), Item("n", ty)>>)
                 [] use = "none" -> Seq_("User", <<Item("k", TBool)>>)
                 [] OTHER -> Seq_("User", <<Item("k", TBool), Item("n", ty)>>)
      here  == IF where = "here" THEN <<def>> ELSE <<>>
      mod(n) == Module_(n, <<>>, <<Simple("Fill-" \o n, TBool)>> \o (IF where = n THEN <<def>> ELSE <<>>))
      p == Project(<<Module_("ma", Map(SelectSeq(<<"mb", "mc">>, LAMBDA x : x \in from),
                                       LAMBDA x : Import(x, <<"Named">>)),
                             <<user, Seq_("Own", <<Item("k", TBool)>>)>> \o here),
                     mod("mb"), mod("mc")>>)
  IN  Case(p, RunsAll(p, "ma", <<"Own">>))

(* ---- WITH COMPONENTS: every kind of component against every kind of member -------------- *)
MemberTypes == [x \in {"u3", "i", "real", "bool", "enum", "seq", "str", "nint", "nreal", "nbool", "arr"} |->
  CASE x = "u3" -> TInt(0, 7) [] x = "i" -> TInt(-5, 5) [] x = "real" -> TReal(F64(-3, -1), F64(3, -1))
    [] x = "bool" -> TBool [] x = "enum" -> TRef("Mode") [] x = "seq" -> TRef("Sub")
    [] x = "str" -> TStr(4) [] x = "nint" -> TRef("Num") [] x = "nreal" -> TRef("Rat")
    [] x = "nbool" -> TRef("Flag") [] OTHER -> TArr(2, TRef("Num"))]
CompInts == {-6, -5, -1, 0, 1, 2, 3, 5, 6, 7, 8}
Comps == {<<"i", n>> : n \in CompInts} \cup {<<"r", n>> : n \in {-7, -6, 2, 6, 7, 28}}
         \cup {<<"b", 0>>, <<"b", 1>>, <<"w", 0>>, <<"w", 1>>}
Comp(key, c) ==
  CASE c[1] = "i" -> CInt(key, c[2]) [] c[1] = "r" -> CReal(key, c[2], -2)
    [] c[1] = "b" -> CBool(key, c[2] = 1)
    [] OTHER -> CWc(key, <<CInt(IF c[2] = 1 THEN "b" ELSE "zz", 1)>>)
Background == <<Enum_("Mode", <<EnumItem("off", TRUE, 1), EnumItem("on", TRUE, 0), EnumItem("low", TRUE, 2)>>),
                Seq_("Sub", <<Item("b", TUnsigned(8))>>), Simple("Num", TInt(0, 7)),
                Simple("Rat", TReal(F64(-3, -1), F64(3, -1))), Simple("Flag", TBool)>>
ConstraintCase(w) ==     \* w = <<member type, component, depth, key>>
  LET inner == Seq_("Inner", <<Item("other", TUnsigned(8)), Item("a", MemberTypes[w[1]])>>)
      mid   == Seq_("Mid", <<Item("in", TRef("Inner")), Item("b", TBool)>>)
      c     == Comp(w[4], w[2])
      outer == IF w[3] = 1 THEN Seq_("Outer", <<ItemWc("x", TRef("Inner"), <<c>>)>>)
               ELSE IF w[3] = 2 THEN Seq_("Outer", <<ItemWc("x", TRef("Mid"), <<CWc("in", <<c>>)>>)>>)
               ELSE Seq_("Outer", <<Item("p", TBool), ItemWc("x", TRef("Inner"), <<CInt("other", 3), c>>)>>)
      p == Project(<<Module_("ma", <<>>, Background \o <<inner, mid, outer>>)>>)
  IN  Case(p, RunsAll(p, "ma", <<"Outer">>))

TargetTypes == [x \in {"int", "bool", "str", "enum", "choice", "arr", "num", "seq", "undefined"} |->
  CASE x = "int" -> TInt(0, 7) [] x = "bool" -> TBool [] x = "str" -> TStr(4) [] x = "enum" -> TRef("Mode")
    [] x = "choice" -> TRef("Either") [] x = "arr" -> TArr(2, TRef("Sub")) [] x = "num" -> TRef("Num")
    [] x = "seq" -> TRef("Sub") [] OTHER -> TRef("Missing")]
TargetCase(w) ==         \* w = <<target type, component, key>>
  LET p == Project(<<Module_("ma", <<>>, Background \o
             <<Choice_("Either", <<Item("b", TUnsigned(8)), Item("c", TBool)>>),
               Seq_("Outer", <<ItemWc("x", TargetTypes[w[1]], <<Comp(w[3], w[2])>>)>>),
               Seq_("Other", <<Item("k", TBool)>>)>>)>>)
  IN  Case(p, RunsAll(p, "ma", <<"Other">>))

(* ---- ranges -------------------------------------------------------------------------------- *)
MagPlus1(k) == [MagPow2(k) EXCEPT ![1] = @ + 1]          \* 2^k + 1, k > 0
Ks == {1, 7, 8, 15, 16, 31, 32, 63, 64}
Neg(m) == [neg |-> TRUE, mag |-> m]
Pos(m) == [neg |-> FALSE, mag |-> m]
Bounds == {Zero, One, FromInt(-1)} \cup
          UNION {{Pow2Big(k), Pow2Less1Big(k), Pos(MagPlus1(k)), MinusPow2Big(k), Neg(MagPow2Less1(k)),
                  Neg(MagPlus1(k))} : k \in Ks}
RangeOk(lo, hi) == Le(lo, hi) /\ ~IntTooWide(TBig(lo, hi))
RangeCase(w) ==          \* w = <<lo, hi, form>>
  LET t == TBig(w[1], w[2])
      defs == IF w[3] = "inline" THEN <<Seq_("User", <<Item("k", TBool), Item("x", t)>>)>>
              ELSE IF w[3] = "named" THEN <<Simple("Num", t), Seq_("User", <<Item("x", TRef("Num"))>>)>>
              ELSE <<Simple("Num", t), Seq_("User", <<Item("x", TBool)>>)>>
      p == Project(<<Module_("ma", <<>>, defs)>>)
  IN  Case(p, RunsAll(p, "ma", <<"User">>))
\* all acceptable ranges with one upper bound, inline and named
RangesCase(w) ==
  LET los == SeqOfSet({lo \in Bounds : RangeOk(lo, w[1])})
      key(i) == "x" \o ToString(i)
      p == Project(<<Module_("ma", <<>>,
             [i \in 1..Len(los) |-> Simple("Num" \o ToString(i), TBig(los[i], w[1]))] \o
             <<Seq_("Inline", [i \in 1..Len(los) |-> Item(key(i), TBig(los[i], w[1]))]),
               Seq_("Named", [i \in 1..Len(los) |-> Item(key(i), TRef("Num" \o ToString(i)))])>>)>>)
  IN  Case(p, RunsAll(p, "ma", <<"Inline", "Named">>))

(* ---- POSIX names ------------------------------------------------------------------------------ *)
PosixSeq == <<"Int8-t", "Int16-t", "Int32-t", "Int64-t", "Uint8-t", "Uint16-t", "Uint32-t", "Uint64-t",
              "Float", "Double">>
PosixType(n) ==
  CASE n \in DOMAIN PosixInt -> TSigned(PosixInt[n] + 1)
    [] n \in DOMAIN PosixUint -> TUnsigned(PosixUint[n])
    [] n = "Float" -> TFloat [] OTHER -> TDouble
Ulp(x, d) == [x EXCEPT !.mag[1] = @ + d]
Bump(t, how) ==
  CASE how = "lo+" -> IF t.k = "real" THEN [t EXCEPT !.lo = Ulp(@, -1)]
                      ELSE IF t.lo.neg THEN [t EXCEPT !.lo = Neg(MagPow2Less1(MagBits(@.mag) - 1))]
                      ELSE [t EXCEPT !.lo = One]
    [] how = "lo-" -> IF t.k = "real" THEN [t EXCEPT !.lo = Ulp(@, 1)]
                      ELSE IF t.lo.neg THEN [t EXCEPT !.lo = Neg(MagPlus1(MagBits(@.mag) - 1))]
                      ELSE [t EXCEPT !.lo = FromInt(-1)]
    [] how = "hi-" -> [t EXCEPT !.hi = Ulp(@, -1)]
    [] how = "hi+" -> IF t.k = "real" THEN [t EXCEPT !.hi = Ulp(@, 1)]
                      ELSE [t EXCEPT !.hi = Pow2Big(MagBits(@.mag))]
    [] how = "half" -> IF t.k = "real" THEN [t EXCEPT !.lo = Zero] ELSE [t EXCEPT !.hi = One]
    [] how = "bool" -> TBool
    [] how = "any" -> TIntAny
    [] OTHER -> t
PosixCase(w) ==          \* w = <<name, definition>>
  LET t == IF w[2] \in {PosixSeq[i] : i \in 1..10} THEN PosixType(w[2]) ELSE Bump(PosixType(w[1]), w[2])
      own == CASE w[2] = "seq" -> Seq_(w[1], <<Item("inner", TUnsigned(17))>>)
               [] w[2] = "enum" -> Enum_(w[1], <<EnumItem("on", FALSE, 0), EnumItem("off", FALSE, 0)>>)
               [] w[2] = "choice" -> [Seq_(w[1], <<Item("inner", TUnsigned(17))>>) EXCEPT !.k = "choice"]
               [] OTHER -> Simple(w[1], t)
      p == Project(<<Module_("ma", <<>>, <<own, Seq_("User", <<Item("k", TUnsigned(3)),
                                                                           Item("x", TRef(w[1]))>>)>>)>>)
  IN  Case(p, RunsAll(p, "ma", <<"User">>))
PosixHow == {"lo+", "lo-", "hi-", "hi+", "half", "bool", "any", "seq", "enum", "choice"}

(* ---- enumerations: every vector of positions ------------------------------------------------------ *)
EnumsCase(w) ==          \* w = <<n, p1, ..., pn>>; -1: not given
  LET e == Enum_("Mode", [i \in 1..w[1] |-> EnumItem("it-" \o ToString(i), w[i + 1] # -1,
                                                     IF w[i + 1] = -1 THEN 0 ELSE w[i + 1])])
      p == Project(<<Module_("ma", <<Import("mb", <<"Mode">>)>>,
                             <<Seq_("User", <<Item("k", TUnsigned(3)), Item("m", TRef("Mode")),
                                              Item("z", TBool)>>),
                               Seq_("Row", <<Item("ms", TArr(3, TRef("Mode")))>>)>>),
                     Module_("mb", <<>>, <<Seq_("Near", <<Item("m", TRef("Mode"))>>), e>>)>>)
  IN  Case(p, RunsAll(p, "ma", <<"User", "Row">>))

(* ---- layouts: every sequence of three kinds of members --------------------------------------------- *)
KindSeq == <<"bool", "u5", "u8", "u12", "u16", "u33", "u64", "i8", "i32", "float", "double", "enum", "nu5",
             "str", "arr", "odd", "even", "arrodd", "zero", "arrenum">>
Kind(x) ==
  CASE x = "bool" -> TBool [] x = "u5" -> TUnsigned(5) [] x = "u8" -> TUnsigned(8)
    [] x = "u12" -> TUnsigned(12) [] x = "u16" -> TUnsigned(16) [] x = "u33" -> TUnsigned(33)
    [] x = "u64" -> TUnsigned(64) [] x = "i8" -> TInt(-1, 100) [] x = "i32" -> TSigned(32)
    [] x = "float" -> TReal(F64(-3, -1), F64(5, -1)) [] x = "double" -> TReal(F64(-1, 200), F64(1, 200))
    [] x = "enum" -> TRef("Mode") [] x = "nu5" -> TRef("Nu5") [] x = "str" -> TStr(3)
    [] x = "arr" -> TArr(2, TRef("Nu16")) [] x = "odd" -> TRef("Odd") [] x = "even" -> TRef("Even")
    [] x = "arrodd" -> TArr(2, TRef("Odd")) [] x = "zero" -> TInt(0, 0) [] OTHER -> TArr(3, TRef("Mode"))
Parts == <<Enum_("Mode", <<EnumItem("off", TRUE, 2), EnumItem("on", TRUE, 0), EnumItem("low", TRUE, 1)>>),
           Simple("Nu5", TUnsigned(5)), Simple("Nu16", TUnsigned(16)),
           Seq_("Odd", <<Item("p", TUnsigned(3)), Item("q", TUnsigned(6))>>),
           Seq_("Even", <<Item("p", TUnsigned(4)), Item("q", TUnsigned(12)), Item("r", TSigned(16))>>)>>
LayoutCase(w) ==         \* w = <<kind, kind>>
  LET third == SelectSeq(KindSeq, LAMBDA x : w[1] # "arrenum" /\ w[2] # "arrenum" => x # "arrenum")
      name(i) == "Pkt" \o ToString(i)
      s(i) == Seq_(name(i), <<Item("a", Kind(w[1])), Item("b", Kind(w[2])), Item("c", Kind(third[i]))>>)
      p == Project(<<Module_("ma", <<>>, [i \in 1..Len(third) |-> s(i)] \o Parts)>>)
  IN  Case(p, RunsAll(p, "ma", [i \in 1..Len(third) |-> name(i)]))

(* ---- arrays of everything, also of what a command cannot generate: it is generated right or refused ------ *)
ElementSeq == KindSeq \o <<"intany", "realany", "nbool", "nstr", "narr", "alias", "null0">>
Element(x) ==
  CASE x = "intany" -> TIntAny [] x = "realany" -> TRealAny [] x = "nbool" -> TRef("Nbool") [] x = "nstr" -> TRef("Nstr")
    [] x = "narr" -> TRef("Narr") [] x = "alias" -> TRef("Nalias") [] x = "null0" -> TStr(0) [] OTHER -> Kind(x)
ElementDefs(x) ==
  CASE x = "nbool" -> <<Simple("Nbool", TBool)>> [] x = "nstr" -> <<Simple("Nstr", TStr(4))>>
    [] x = "narr" -> <<Simple("Narr", TArr(2, TRef("Nu16")))>> [] x = "alias" -> <<Simple("Nalias", TRef("Nu5"))>>
    [] OTHER -> <<>>
ElementCase(w) ==        \* w = <<element, array of array of ..., further member before, after>>
  LET t == CASE w[2] = 0 -> Element(w[1]) [] w[2] = 1 -> TArr(3, Element(w[1])) [] OTHER -> TArr(3, TArr(2, Element(w[1])))
      p == Project(<<Module_("ma", <<>>, Parts \o ElementDefs(w[1]) \o
             <<Seq_("Top", (IF w[3] THEN <<Item("a", TUnsigned(3))>> ELSE <<>>) \o <<Item("b", t)>>
                           \o (IF w[4] THEN <<Item("c", TUnsigned(16))>> ELSE <<>>))>>)>>)
  IN  Case(p, RunsAll(p, "ma", <<"Top">>))

(* ---- fixed values: which members of two uses of a nested type are fixed ------------------------------ *)
\* w = <<x, y, a, order, second, own>>: x, y \subseteq {"a", "b"} fixed below x and y, a fixed or not
FixVal == [a |-> <<0, 255, 7>>, b |-> <<-1, -32768, 32767>>]
LeafWc(S, n) == Map(SelectSeq(<<"a", "b">>, LAMBDA k : k \in S), LAMBDA k : CInt(k, FixVal[k][n]))
MidWc(x, y, a, n) ==
  (IF x = {} THEN <<>> ELSE <<CWc("x", LeafWc(x, n))>>)
  \o (IF a THEN <<CInt("a", 5)>> ELSE <<>>)
  \o (IF y = {} THEN <<>> ELSE <<CWc("y", LeafWc(y, (n % 3) + 1))>>)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
FixedCase(w) ==
  LET ordered(s) == IF w[4] = "up" THEN s ELSE Rev(s)
      one == ordered(MidWc(w[1], w[2], w[3], 1))
      two == CASE w[5] = "none" -> <<>> [] w[5] = "other" -> ordered(MidWc(w[2], w[1], ~w[3], 2))
               [] OTHER -> <<CInt("a", 9)>>
      it(k, wc) == IF wc = <<>> THEN Item(k, TRef("Mid")) ELSE ItemWc(k, TRef("Mid"), wc)
      mid == Seq_("Mid", <<IF w[6] = "own" THEN ItemWc("w", TRef("Leaf"), <<CInt("b", 77)>>) ELSE Item("w", TRef("Leaf")),
                           Item("a", TUnsigned(8)), Item("x", TRef("Leaf")), Item("y", TRef("Leaf"))>>)
      p == Project(<<Module_("ma", <<Import("mb", <<"Mid">>)>>,
                             <<Seq_("Top", <<it("t", one), Item("a", TUnsigned(8)), it("u", two)>>),
                               Seq_("Plain", <<Item("t", TRef("Mid")), Item("b", TSigned(16))>>)>>),
                     Module_("mb", <<>>, <<mid, Seq_("Leaf", <<Item("b", TSigned(16)), Item("a", TUnsigned(8))>>)>>)>>)
  IN  Case(p, RunsAll(p, "ma", <<"Top", "Plain">>) \o <<RunCosmos("ma", <<"Plain", "Top">>)>>)

(* ---- message identifiers: every combination of fixed parts --------------------------------------------- *)
Apids == <<-1, 0, 1, 1024, 2046, 2047>>
MidCase(w) ==            \* w = <<version, type, secondary header>>; -1: not fixed
  LET part(apid) ==
        (IF w[1] = -1 THEN <<>> ELSE <<CInt("packet-version-number", w[1])>>)
        \o (IF w[2] = -1 THEN <<>> ELSE <<CBool("packet-type-is-cmd", w[2] = 1)>>)
        \o (IF apid = -1 THEN <<>> ELSE <<CInt("application-process-identifier", apid)>>)
        \o (IF w[3] = -1 THEN <<>> ELSE <<CBool("sec-hdr-flag-is-present", w[3] = 1)>>)
      wc(c) == <<CWc("primary", <<CWc("packet-identification", c)>>), CWc("secondary", <<CInt("code", 3)>>)>>
      cand == SelectSeq([i \in 1..12 |-> IF i <= 6 THEN part(Apids[i]) ELSE Rev(part(Apids[i - 6]))],
                        LAMBDA c : c # <<>>)
      pkt(i) == Seq_("Pkt" \o ToString(i), <<ItemWc("header", TRef("Header"), wc(cand[i])), Item("v", TUnsigned(16))>>)
      p == Project(<<Module_("ma", <<>>,
             [i \in 1..Len(cand) |-> pkt(i)] \o
             <<Seq_("Ident", <<Item("packet-version-number", TUnsigned(3)), Item("packet-type-is-cmd", TBool),
                               Item("sec-hdr-flag-is-present", TBool),
                               Item("application-process-identifier", TUnsigned(11))>>),
               Seq_("Primary", <<Item("packet-identification", TRef("Ident")), Item("rest", TUnsigned(32))>>),
               Seq_("Secondary", <<Item("code", TUnsigned(8))>>),
               Seq_("Header", <<Item("primary", TRef("Primary")), Item("secondary", TRef("Secondary"))>>)>>)>>)
  IN  Case(p, RunsAll(p, "ma", [i \in 1..Len(cand) |-> "Pkt" \o ToString(i)]))

(* ---- values at the bounds of two neighbouring types ------------------------------------------------------ *)
ValueTypes == <<"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "float", "double", "u1", "u5", "u12", "u63", "bool">>
ValueType(x) ==
  CASE x = "u8" -> TUnsigned(8) [] x = "u16" -> TUnsigned(16) [] x = "u32" -> TUnsigned(32)
    [] x = "u64" -> TUnsigned(64) [] x = "i8" -> TSigned(8) [] x = "i16" -> TSigned(16)
    [] x = "i32" -> TSigned(32) [] x = "i64" -> TSigned(64) [] x = "u1" -> TUnsigned(1)
    [] x = "float" -> TReal(F64(-3, -1), F64(5, 20)) [] x = "double" -> TReal(F64(-3, 200), F64(1, 201))
    [] x = "u5" -> TUnsigned(5) [] x = "u12" -> TUnsigned(12) [] x = "u63" -> TUnsigned(63) [] OTHER -> TBool
ValueAt(key, x, n) ==    \* n = 1: the lowest, 2: the highest, 3: one
  CASE x = "bool" -> CBool(key, n # 1)
    [] x = "float" -> IF n = 1 THEN CReal(key, -3, -1) ELSE IF n = 2 THEN CReal(key, 5, 20) ELSE CInt(key, 1)
    [] x = "double" -> IF n = 1 THEN CReal(key, -3, 200) ELSE IF n = 2 THEN CReal(key, 1, 201) ELSE CReal(key, 1, -3)
    [] n = 3 -> CInt(key, 1)
    [] OTHER -> CBig(key, IF n = 1 THEN ValueType(x).lo ELSE ValueType(x).hi)
ValuesCase(w) ==         \* w = <<type, type>>
  LET name(i) == "Pkt" \o ToString(i)
      pkt(i) == Seq_(name(i),
                  <<ItemWc("h", TRef("Pair"), <<ValueAt("a", w[1], ((i - 1) \div 3) + 1),
                                                ValueAt("b", w[2], ((i - 1) % 3) + 1),
                                                ValueAt("c", w[1], ((i - 1) % 3) + 1)>>)>>)
      p == Project(<<Module_("ma", <<>>,
             [i \in 1..9 |-> pkt(i)] \o
             <<Simple("Named", ValueType(w[2])),
               Seq_("Pair", <<Item("a", ValueType(w[1])), Item("b", TRef("Named")), Item("c", ValueType(w[1]))>>)>>)>>)
  IN  Case(p, RunsAll(p, "ma", [i \in 1..9 |-> name(i)]))

(* ---- comments: every short text, every place ------------------------------------------------------------- *)
Signs == <<"a", "-", "[", "]", "\"", "\\", "*", "/">>
Spots == <<"module", "imports", "import", "seq", "member", "last", "enum", "eitem", "elast", "simple", "wcmem",
           "open", "comp", "clast", "nested", "choice">>
Spotted(c, on) ==        \* a project with comment c at the places on
  LET at(x) == IF x \in on THEN c ELSE NoCmt
      wc == <<[CInt("k", 3) EXCEPT !.cmt = at("comp")],
              [CWc("sub", <<[CInt("b", 1) EXCEPT !.cmt = at("clast")]>>) EXCEPT !.wcmt = at("nested")]>>
      top == [Seq_("Top", <<[Item("first", TUnsigned(3)) EXCEPT !.cmt = at("member")],
                            [[ItemWc("held", TRef("Held"), wc) EXCEPT !.cmt = at("wcmem")] EXCEPT !.wcmt = at("open")],
                            [Item("m", TRef("Mode")) EXCEPT !.cmt = at("last")]>>) EXCEPT !.cmt = at("seq")]
      e == [Enum_("Mode", <<[EnumItem("off", TRUE, 1) EXCEPT !.cmt = at("eitem")],
                            [EnumItem("on", TRUE, 0) EXCEPT !.cmt = at("elast")]>>) EXCEPT !.cmt = at("enum")]
      s == [Simple("Num", TUnsigned(8)) EXCEPT !.cmt = at("simple")]
      h == <<Seq_("Held", <<Item("k", TRef("Num")), Item("sub", TRef("Sub"))>>), Seq_("Sub", <<Item("b", TSigned(16))>>)>>
      ch == IF "choice" \in on THEN <<[Choice_("Either", <<Item("b", TBool)>>) EXCEPT !.cmt = c]>> ELSE <<>>
      im == [Import("mb", <<"Held">>) EXCEPT !.cmt = at("import")]
  IN  Project(<<[[Module_("ma", <<im>>, <<top, e>>) EXCEPT !.cmt = at("module")] EXCEPT !.icmt = at("imports")],
                Module_("mb", <<>>, <<s>> \o h \o ch)>>)
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Concat(Tail(s))
RECURSIVE SignSum(_)
SignSum(s) == IF s = <<>> THEN 0 ELSE Head(s) + SignSum(Tail(s))
TextCase(w) ==           \* w = <<length, sign, ...>>; the place goes round
  LET idx == SubSeq(w, 2, Len(w))
      c == Cmt(Concat(Map(idx, LAMBDA i : Signs[i])))
      p == Spotted(c, {Spots[((SignSum(idx) * 7 + Len(idx)) % 16) + 1]})
  IN  Case(p, RunsAll(p, "ma", <<"Top">>))
BadTexts == <<"x [m]", "]", "a -- b", "say \"x\"", "back\\slash", "/* c */", "*/", "--", "tail -->", "a[0]">>
GoodTexts == <<"x", "*", "/*", "- - -", "* /", "a-b->c", "0..7", "END">>
PlaceCase(w) ==          \* w = <<place, text>>
  LET p == Spotted(Cmt(w[2]), {w[1]})
  IN  Case(p, RunsAll(p, "ma", <<"Top">>))
SpotComments == <<Cmt("a text"), CmtOf("with unit", "m/s", FALSE), CmtOf("", "V", TRUE), CmtOf("little", "", TRUE)>>
UnitSpots == {"member", "last", "wcmem"}
SpotCase(w) ==           \* w = <<kind of comment, place, place>>; q: without
  LET p == Spotted(SpotComments[w[1]], {w[2], w[3]})
  IN  [p |-> p, runs |-> RunsAll(p, "ma", <<"Top">>), q |-> Spotted(NoCmt, {})]

(* ---- names and arguments ------------------------------------------------------------------------------------- *)
TwoModules == Project(<<Module_("ma", <<>>, <<Seq_("Aa", <<Item("k", TBool)>>), Seq_("Ab", <<Item("k", TUnsigned(8))>>)>>),
                        Module_("mb", <<Import("ma", <<"Aa">>)>>, <<Seq_("Ba", <<Item("k", TRef("Aa"))>>)>>)>>)
ArgsCase(w) ==           \* w = <<n, arg, ...>>
  LET args == SubSeq(w, 2, Len(w))
  IN  Case(TwoModules, <<Run("cfs", args, <<>>, "none"), Run("c", args, <<>>, "none"),
                         Run("binary", args, <<>>, "big-endian")>>)
MsgsCase(w) ==           \* w = <<module, n, message, ...>>
  Case(TwoModules, <<RunCosmos(w[1], SubSeq(w, 3, Len(w)))>>)
\* two modules with two definitions each, any names
ClashCase(w) ==          \* w = <<module name, module name, definition names (4), kind of the last>>
  LET d(n) == Seq_(n, <<Item("k", TUnsigned(8))>>)
      last == CASE w[7] = "seq" -> d(w[6]) [] w[7] = "enum" -> Enum_(w[6], <<EnumItem("ea", FALSE, 0), EnumItem("eb", FALSE, 0)>>)
                [] OTHER -> Simple(w[6], TUnsigned(8))
      p == Project(<<Module_(w[1], <<>>, <<d(w[3]), d(w[4])>>), Module_(w[2], <<>>, <<d(w[5]), last>>)>>)
      args == IF w[1] = w[2] THEN <<w[1]>> ELSE <<w[1], w[2]>>
  IN  Case(p, <<Run("cfs", args, <<>>, "none"), Run("c", args, <<>>, "none"),
                Run("binary", args, <<>>, "big-endian"), RunCosmos(w[1], <<w[3]>>)>>)
\* three modules with one definition each, any names
TrioCase(w) ==           \* w = <<module names (3), definition names>>
  LET ns == SubSeq(w, 1, 3)
      p == Project([i \in 1..3 |-> Module_(ns[i], <<>>, <<Seq_(w[4][i], <<Item("k", TUnsigned(8))>>)>>)])
      args == SelectSeq(<<"ma", "mb", "mc">>, LAMBDA n : n \in Elems(ns))
  IN  Case(p, <<Run("cfs", args, <<>>, "none"), Run("c", args, <<>>, "none"),
                Run("binary", args, <<>>, "big-endian"), RunCosmos(w[1], <<w[4][1]>>)>>)
\* three names in one SEQUENCE, CHOICE, ENUMERATED or WITH COMPONENTS
KeysCase(w) ==           \* w = <<where, key, key, key>>
  LET ks == SubSeq(w, 2, 4)
      its == Map(ks, LAMBDA k : Item(k, TUnsigned(8)))
      abc == Seq_("Abc", <<Item("ka", TUnsigned(8)), Item("kb", TUnsigned(8)), Item("kc", TUnsigned(8))>>)
      defs == CASE w[1] = "seq" -> <<Seq_("User", its)>>
                [] w[1] = "choice" -> <<Choice_("Either", its), Seq_("User", <<Item("k", TBool)>>)>>
                [] w[1] = "enum" -> <<Enum_("Mode", Map(ks, LAMBDA k : EnumItem(k, FALSE, 0))), Seq_("User", <<Item("k", TRef("Mode"))>>)>>
                [] w[1] = "wc" -> <<abc, Seq_("User", <<ItemWc("x", TRef("Abc"), Map(ks, LAMBDA k : CInt(k, 7)))>>)>>
                [] OTHER -> <<abc, Seq_("Mid", <<Item("in", TRef("Abc"))>>),
                              Seq_("User", <<ItemWc("x", TRef("Mid"), <<CWc("in", Map(ks, LAMBDA k : CInt(k, 7)))>>)>>)>>
      p == Project(<<Module_("ma", <<>>, defs)>>)
  IN  Case(p, RunsAll(p, "ma", <<"User">>))

(* ---- order of definitions, of modules, of messages -------------------------------------------------------------- *)
OrderCase(w) ==          \* w = <<edge 1-2, 1-3, 2-3, permutation>>: 0 none, 1 member, 2 array
  LET ty(j, e) == IF e = 2 THEN TArr(2, TRef(Ty[j])) ELSE TRef(Ty[j])
      m(j, e) == IF e = 0 THEN <<>> ELSE <<Item("x" \o ToString(j), ty(j, e))>>
      d == <<Seq_(Ty[1], <<Item("own", TUnsigned(5)), Item("num", TRef("Num"))>> \o m(2, w[1]) \o m(3, w[2])),
             Seq_(Ty[2], <<Item("own", TUnsigned(9)), Item("mode", TRef("Mode"))>> \o m(3, w[3])),
             Seq_(Ty[3], <<Item("own", TSigned(16))>>)>>
      bg == <<Simple("Num", TUnsigned(16)), EnumN("Mode", "it", 3)>>
      mk(q) == Project(<<Module_("ma", <<>>, IF q[1] < q[2] THEN [i \in 1..3 |-> d[q[i]]] \o bg
                                                 ELSE bg \o [i \in 1..3 |-> d[q[i]]])>>)
      p == mk(w[4])
  IN  [p |-> p, runs |-> RunsAll(p, "ma", <<"Ta", "Tc">>), q |-> mk(<<1, 2, 3>>)]
FilesCase(w) ==          \* w = <<imports of the first, of the second, permutation of the files>>
  LET ms == <<ImportModule(1, w[1]), ImportModule(2, w[2]), ImportModule(3, {})>>
      p  == Project([i \in 1..3 |-> ms[w[3][i]]])
  IN  [p |-> p, runs |-> RunsAll(p, "ma", <<Ty[1]>>), q |-> Project(ms)]
MessagesCase(w) ==       \* w = <<permutation of the definitions, messages>>
  LET d == <<Seq_(Ty[1], <<ItemWc("h", TRef("Held"), <<CInt("k", 3)>>), Item("m", TRef("Mode"))>>),
             Seq_(Ty[2], <<Item("h", TRef("Held")), ItemWc("g", TRef("Held"), <<CInt("k", 4), CInt("l", 5)>>)>>),
             Seq_(Ty[3], <<Item("h", TRef("Held")), Item("f", TArr(2, TRef(Ty[1])))>>)>>
      bg == <<Seq_("Held", <<Item("k", TUnsigned(8)), Item("l", TUnsigned(4))>>), EnumN("Mode", "it", 3)>>
      p == Project(<<Module_("ma", <<>>, [i \in 1..3 |-> d[w[1][i]]] \o bg)>>)
  IN  Case(p, <<RunCosmos("ma", Map(w[2], LAMBDA i : Ty[i]))>>)
Selections == {s \in UNION {[1..n -> 1..3] : n \in 1..3} : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}

(* ---- names: every identifier over a small alphabet ---------------------------------------------------------------- *)
Letters == <<"a", "z", "1", "-">>
NameTails(n) == {s \in [1..n -> 1..4] :
                   /\ n > 0 => s[n] # 4
                   /\ \A i \in 1..(n - 1) : ~(s[i] = 4 /\ s[i + 1] = 4)}
Word(first, s) == first \o Concat([i \in 1..Len(s) |-> Letters[s[i]]])
IdentCase(w) ==          \* w = <<length, first letter of members>>
  LET tails == SeqOfSet(NameTails(w[1]))
      keys == [i \in 1..Len(tails) |-> Word(w[2], tails[i])]
      types == [i \in 1..Len(tails) |-> Word("X", tails[i])]
      d(i) == Seq_(types[i], <<Item(keys[i], TUnsigned(8)), Item("held", TRef("Held"))>>)
      mods == [i \in 1..Len(tails) |-> Module_(Word("m", tails[i]), <<Import("base", <<"Held">>)>>,
                 <<d(i), Seq_("Y" \o Word(w[2], tails[i]),
                              <<ItemWc("held", TRef("Held"), <<CInt(keys[1 + (i % Len(tails))], i)>>)>>)>>)]
      p == Project(mods \o <<Module_("base", <<>>, <<Seq_("Held", Map(keys, LAMBDA k : Item(k, TUnsigned(16))))>>)>>)
  IN  Case(p, RunsAll(p, Word("m", tails[1]), <<types[1], "Y" \o Word(w[2], tails[1])>>))

(* ---- two modules, and their types and members, with names that hardly differ ----------------------------------------- *)
KinNames == {"a", "a1", "a-1", "a-1-1", "ab", "a-b", "a-ab", "a-msg", "aa"}
KinCase(w) ==            \* w = <<name, name>>
  LET leaf == "X-" \o w[1]
      p == Project(<<Module_(w[1], <<>>, <<Seq_(leaf, <<Item(w[1], TUnsigned(8)), Item(w[2], TSigned(16))>>)>>),
                     Module_(w[2], <<Import(w[1], <<leaf>>)>>,
                       <<Seq_("X-" \o w[2], <<ItemWc(w[2], TRef(leaf), <<CInt(w[2], 7), CInt(w[1], 9)>>),
                                              Item(w[1], TRef(leaf))>>)>>)>>)
  IN  Case(p, RunsAll(p, w[2], <<"X-" \o w[2]>>))

(* ---- values fixed in layers: by a member itself, by the member around it and the one around that -------------------- *)
LayerWc(keys, n) ==
  (IF "c" \in keys THEN <<CInt("c", 10 * n + 3)>> ELSE <<>>)
  \o (IF "a" \in keys THEN <<CInt("a", 10 * n + 1)>> ELSE <<>>)
  \o (IF "b" \in keys THEN <<CInt("b", 0 - (10 * n + 2))>> ELSE <<>>)
LayersCase(w) ==         \* w = <<fixed by Mid, by Top over x, by Top over y, messages, whether Outer adds>>
  LET on(k, t, wc) == IF wc = <<>> THEN Item(k, TRef(t)) ELSE ItemWc(k, TRef(t), wc)
      over(keys, n) == IF keys = {} THEN <<>> ELSE <<CWc("h", LayerWc(keys, n))>>
      defs == <<Seq_("Leaf", <<Item("a", TUnsigned(8)), Item("b", TSigned(16)), Item("c", TUnsigned(6))>>),
                Seq_("Mid", <<on("h", "Leaf", LayerWc(w[1], 1)), Item("k", TRef("Leaf"))>>),
                Seq_("Top", <<on("x", "Mid", over(w[2], 2)), on("y", "Mid", over(w[3], 3))>>),
                Seq_("Outer", <<on("o", "Top", CASE w[5] = "other" -> <<CWc("x", <<CWc("k", LayerWc({"a"}, 4))>>)>>
                                                   [] w[5] = "same" -> <<CWc("x", <<CWc("h", LayerWc({"a", "b", "c"} \ (w[1] \cup w[2]), 4))>>)>>
                                                   [] OTHER -> <<>>),
                                Item("q", TRef("Top"))>>)>>
      p == Project(<<Module_("ma", <<>>, defs)>>)
  IN  Case(p, <<RunCosmos("ma", w[4])>> \o RunsC(p))

(* ---- REAL values of every magnitude, fixed on a member and through another ------------------------------------------ *)
RealSigs == <<1, -1, 3, -3, 5, -5, 127, -127, 1000003, -1000003>>
RealsCase(w) ==          \* w = <<power of two, representation>>
  LET t == IF w[2] = "float" THEN TReal(F64(-1, 120), F64(1, 120)) ELSE TReal(F64(-1, 200), F64(1, 200))
      n == Len(RealSigs)
      leaf == Seq_("Leaf", [i \in 1..n |-> Item("r" \o ToString(i), t)])
      wc(e) == [i \in 1..n |-> CReal("r" \o ToString(i), RealSigs[i], e)]
      p == Project(<<Module_("ma", <<>>,
             <<leaf, Seq_("Mid", <<Item("k", TBool), Item("h", TRef("Leaf"))>>),
               Seq_("Top", <<ItemWc("x", TRef("Leaf"), wc(w[1])), ItemWc("y", TRef("Mid"), <<CWc("h", wc(w[1] + 1))>>)>>)>>)>>)
  IN  Case(p, RunsAll(p, "ma", <<"Top">>))

(* ==================================================================================================================== *)
\* what may stand in the next slot ({}: the case is complete)
Choices ==
  LET n == Len(v) + 1 IN
  CASE Family = "imports"    -> IF n <= 3 THEN SUBSET {1, 2, 3} ELSE {}
    [] Family = "import-names" -> IF n <= 2 THEN [1..3 -> 0..2] ELSE {}
    [] Family = "types"      -> IF n <= 3 THEN SUBSET {1, 2, 3} ELSE {}
    [] Family = "mixed"      -> IF n <= 2 THEN {<<k, a, b>> : k \in {"seq", "choice"}, a \in 0..2, b \in 0..2} ELSE {}
    [] Family = "visibility" -> CASE n = 1 -> {"here", "mb", "mc", "nowhere"} [] n = 2 -> SUBSET {"mb", "mc"}
                                  [] n = 3 -> {"member", "array", "choice", "none"} [] n = 4 -> {"seq", "simple"}
                                  [] OTHER -> {}
    [] Family = "constraint" -> CASE n = 1 -> DOMAIN MemberTypes [] n = 2 -> Comps [] n = 3 -> {1, 2, 3}
                                  [] n = 4 -> IF v[2] \in {<<"i", 1>>, <<"b", 1>>, <<"w", 1>>} THEN {"a", "zz"} ELSE {"a"}
                                  [] OTHER -> {}
    [] Family = "target"     -> CASE n = 1 -> DOMAIN TargetTypes [] n = 2 -> {<<"i", 1>>, <<"w", 1>>, <<"w", 0>>}
                                  [] n = 3 -> {"b", "zz"} [] OTHER -> {}
    [] Family = "range"      -> CASE n <= 2 -> Bounds [] n = 3 -> {"inline", "named", "unused"} [] OTHER -> {}
    [] Family = "ranges"     -> IF n = 1 THEN {b \in Bounds : \E lo \in Bounds : RangeOk(lo, b)} ELSE {}
    [] Family = "posix"      -> CASE n = 1 -> Elems(PosixSeq) [] n = 2 -> Elems(PosixSeq) \cup (IF v[1] = "Double" THEN PosixHow \ {"lo-", "hi+"} ELSE PosixHow)
                                  [] OTHER -> {}      \* next to the largest double: infinity
    [] Family = "enums"      -> IF n = 1 THEN 1..4 ELSE IF n > v[1] + 1 THEN {}
                                ELSE IF v[1] = 4 THEN 0..4 ELSE -1..v[1]
    [] Family = "layout"     -> IF n <= 2 THEN Elems(KindSeq) ELSE {}
    [] Family = "fixed"      -> CASE n <= 2 -> SUBSET {"a", "b"} [] n = 3 -> BOOLEAN [] n = 4 -> {"up", "down"}
                                  [] n = 5 -> {"none", "other", "one"} [] n = 6 -> {"plain", "own"} [] OTHER -> {}
    [] Family = "mid"        -> CASE n = 1 -> -1..7 [] n <= 3 -> -1..1 [] OTHER -> {}
    [] Family = "values"     -> IF n <= 2 THEN Elems(ValueTypes) ELSE {}
    [] Family = "texts"      -> IF n = 1 THEN 1..3 ELSE IF n > v[1] + 1 THEN {}
                                ELSE IF n = 2 THEN (1..8) \ {3} ELSE 1..8      \* "[" first: a unit
    [] Family = "places"     -> CASE n = 1 -> Elems(Spots) [] n = 2 -> Elems(BadTexts) \cup Elems(GoodTexts) [] OTHER -> {}
    [] Family = "spots"      -> CASE n = 1 -> 1..4 [] n = 2 -> Elems(Spots) \ {"choice"}
                                  [] n = 3 -> IF v[1] = 1 THEN Elems(Spots) \ {"choice"} ELSE UnitSpots \cup {v[2]}
                                  [] OTHER -> {}
    [] Family = "args"       -> IF n = 1 THEN 1..4 ELSE IF n > v[1] + 1 THEN {} ELSE {"ma", "mb", "zz"}
    [] Family = "msgs"       -> CASE n = 1 -> {"ma", "mb", "zz"} [] n = 2 -> 1..2
                                  [] OTHER -> IF n > v[2] + 2 THEN {}
                                              ELSE {"Aa", "Ab", "Ba", "Zz"} \ {v[i] : i \in 3..Len(v)}
    [] Family = "clash"      -> CASE n <= 2 -> {"ma", "mb"} [] n <= 4 -> {"Da", "Db"} [] n <= 6 -> {"Da", "Db", "Dc", "Dd"}
                                  [] n = 7 -> {"seq", "enum", "simple"} [] OTHER -> {}
    [] Family = "trio"       -> CASE n <= 3 -> {"ma", "mb", "mc"}
                                  [] n = 4 -> {<<"Da", "Db", "Dc">>, <<"Da", "Da", "Da">>, <<"Da", "Db", "Da">>}
                                  [] OTHER -> {}
    [] Family = "keys"       -> CASE n = 1 -> {"seq", "choice", "enum", "wc", "nested"} [] n <= 4 -> {"ka", "kb", "kc"} [] OTHER -> {}
    [] Family = "order"      -> CASE n <= 3 -> 0..2 [] n = 4 -> Perms3 [] OTHER -> {}
    [] Family = "files"      -> CASE n = 1 -> SUBSET {2, 3} [] n = 2 -> SUBSET {3} [] n = 3 -> Perms3 [] OTHER -> {}
    [] Family = "messages"   -> CASE n = 1 -> Perms3 [] n = 2 -> Selections [] OTHER -> {}
    [] Family = "elements"   -> CASE n = 1 -> Elems(ElementSeq) [] n = 2 -> 0..2 [] n <= 4 -> BOOLEAN [] OTHER -> {}
    [] Family = "layers"     -> CASE n = 1 -> SUBSET {"a", "b"} [] n <= 3 -> SUBSET ({"a", "b", "c"} \ v[1])
                                  [] n = 4 -> {<<"Mid", "Top", "Outer">>, <<"Outer", "Top", "Mid">>, <<"Top", "Mid">>, <<"Top", "Outer">>}
                                  [] n = 5 -> {"none", "other"} \cup (IF v[1] \cup v[2] # {"a", "b", "c"} THEN {"same"} ELSE {})
                                  [] OTHER -> {}
    [] Family = "reals"      -> CASE n = 1 -> -60..60 [] n = 2 -> {"float", "double"} [] OTHER -> {}
    [] Family = "kin"        -> IF n <= 2 THEN KinNames \ Elems(v) ELSE {}
    [] Family = "idents"     -> CASE n = 1 -> 0..2 [] n = 2 -> {"k", "y"} [] OTHER -> {}

CaseOf(w) ==
  CASE Family = "imports" -> ImportsCase(w) [] Family = "import-names" -> NamesCase(w)
    [] Family = "types" -> TypesCase(w) [] Family = "mixed" -> MixedCase(w)
    [] Family = "visibility" -> VisibilityCase(w) [] Family = "constraint" -> ConstraintCase(w)
    [] Family = "target" -> TargetCase(w) [] Family = "range" -> RangeCase(w) [] Family = "ranges" -> RangesCase(w)
    [] Family = "posix" -> PosixCase(w) [] Family = "enums" -> EnumsCase(w) [] Family = "layout" -> LayoutCase(w)
    [] Family = "fixed" -> FixedCase(w) [] Family = "mid" -> MidCase(w) [] Family = "values" -> ValuesCase(w)
    [] Family = "texts" -> TextCase(w) [] Family = "places" -> PlaceCase(w) [] Family = "spots" -> SpotCase(w)
    [] Family = "args" -> ArgsCase(w) [] Family = "msgs" -> MsgsCase(w) [] Family = "clash" -> ClashCase(w)
    [] Family = "trio" -> TrioCase(w)
    [] Family = "keys" -> KeysCase(w) [] Family = "order" -> OrderCase(w) [] Family = "files" -> FilesCase(w)
    [] Family = "layers" -> LayersCase(w) [] Family = "elements" -> ElementCase(w)
    [] Family = "reals" -> RealsCase(w)
    [] Family = "kin" -> KinCase(w) [] Family = "messages" -> MessagesCase(w) [] Family = "idents" -> IdentCase(w)

Complete == Choices = {}

Init == v = <<>>
Next == \E x \in Choices : v' = Append(v, x)
Spec == Init /\ [][Next]_v

(* ---- what must be true of the specification itself ------------------------------------------------------------------ *)
\* a graph is cyclic iff some node reaches itself
ReachesItself(edges) ==
  \E n \in DOMAIN edges : n \in ReachFrom(edges[n], edges, Cardinality(DOMAIN edges) + 1)
CyclesSound(p) ==
  /\ Cyclic(ImportEdges(p)) = ReachesItself(ImportEdges(p))
  /\ LET e == TypeEdges(Env(p)) IN Cyclic(e) = ReachesItself(e)

\* the width of an INTEGER is enough and the least possible
Fits(t, bits) ==
  IF t.lo.neg THEN Le(MinusPow2Big(bits - 1), t.lo) /\ Le(t.hi, Pow2Less1Big(bits - 1))
              ELSE Le(t.hi, Pow2Less1Big(bits))
WidthSound(t) ==
  t.k = "int" /\ t.rng /\ Le(t.lo, t.hi) /\ ~IntTooWide(t) =>
    LET b == IntBits(t) IN
    /\ Fits(t, b) /\ b \in 1..64
    /\ t.lo.neg => b \in {8, 16, 32, 64} /\ (b > 8 => ~Fits(t, b \div 2))
    /\ ~t.lo.neg => b = 1 \/ ~Fits(t, b - 1)

EnumSound(d) ==
  EnumOk(d) => LET n == Len(d.enum) IN
    /\ {EnumPos(d, i) : i \in 1..n} = 0..(n - 1)
    /\ n <= Pow2(EnumBits(d)) /\ (EnumBits(d) > 1 => n > Pow2(EnumBits(d) - 1))

\* members in order, without overlap, gaps only to the next byte, bit-fields without any
LayoutSound(d, env) ==
  LET ms == CMembers(d, env) IN
  /\ \A i \in 1..Len(ms) :
       LET end == IF i = 1 THEN 0 ELSE EndOf(ms[i - 1]) IN
       /\ ms[i].off >= end /\ ms[i].off - end < 8 /\ ms[i].bits > 0
       /\ ms[i].off # end => ms[i].off % 8 = 0
       /\ ms[i].n > 0 => ms[i].off % 8 = 0
  /\ StructBits(d, env) % 8 = 0
  /\ StructBits(d, env) - EndOf(ms[Len(ms)]) \in 0..7

\* the leaves of the C structure and of the COSMOS packet
RECURSIVE CLeaves(_, _, _)
CLeaves(d, base, env) ==
  LET ms == CMembers(d, env) IN
  FlatSeq([i \in 1..Len(ms) |->
    IF ms[i].cls = "struct"
    THEN FlatSeq([j \in 1..(IF ms[i].n = 0 THEN 1 ELSE ms[i].n) |->
           CLeaves(Target(d.items[i].type, env), base + ms[i].off + (j - 1) * ms[i].bits, env)])
    ELSE <<[off |-> base + ms[i].off, m |-> ms[i]]>>])
ViewsAgree(d, env) ==
  LET c == CLeaves(d, 0, env)
      k == Flatten(d, <<>>, env)
  IN  /\ Len(c) = Len(k)
      /\ \A i \in 1..Len(c) :
           /\ CName(k[i].name) = c[i].m.name
           /\ ClassWord(c[i].m.cls) = k[i].type
           /\ c[i].m.cls # "enum" \/ c[i].m.n = 0 =>
                c[i].m.bits * Max2(1, c[i].m.n) = (IF k[i].kw = "ARRAY" THEN k[i].total ELSE k[i].bits)

\* fixed values: as many identifiers as fixed leaves; the image has exactly their bytes;
\* a fully fixed SEQUENCE has the same image as variable and as file
RECURSIVE CountLeaves(_)
CountLeaves(wc) == SumSeq([i \in 1..Len(wc) |-> IF wc[i].k = "wc" THEN CountLeaves(wc[i].wc) ELSE 1])
FixedSound(d, env) ==
  LET own == SumSeq([i \in 1..Len(d.items) |-> CountLeaves(d.items[i].wc)])
      ids == Len(SelectSeq(Flatten(d, <<>>, env), LAMBDA x : x.kw = "ID"))
      lv  == FixedLeaves(d, env)
  IN  /\ \A i \in 1..Len(d.items) :
           d.items[i].wc # <<>> /\ ~HasOwnWc(Target(d.items[i].type, env), env) => Cardinality(lv) <= own
      /\ ~(\E i \in 1..Len(d.items) : Core(d.items[i].type).k = "ref" /\
             env[Core(d.items[i].type).name].k = "seq" /\ HasOwnWc(env[Core(d.items[i].type).name], env))
           => ids = own
      /\ \A a, b \in lv : a # b => a.off + a.bits <= b.off \/ b.off + b.bits <= a.off
ImagesAgree(d, env) ==
  LET lv == FixedLeaves(d, env)
      n  == StructBits(d, env)
  IN  FullyFixed(d, env) /\ (\A l \in lv : l.bits % 8 = 0) =>
        ImageMatches(d, env, Image(d, FALSE, env))

\* message identifiers: 16 bits; the parts can be read back
MidSound(c) ==
  \A m \in MacrosOf("X", c) :
    m.name = "X_MID" => ToInt(m.int) \in 0..65535

Sound ==
  Complete =>
  LET c == CaseOf(v)
      p == c.p
      env == Env(p)
      all == AllDefs(p)
  IN  /\ CyclesSound(p)
      /\ \A i \in 1..Len(all) : \A t \in TypesIn(all[i]) : WidthSound(t)
      /\ \A i \in 1..Len(all) : all[i].k = "enum" => EnumSound(all[i])
      /\ \A j \in 1..Len(c.runs) :
           LET r == c.runs[j]
               rs == Reasons(p, r)
           IN  /\ rs \subseteq ReasonsOfC01 \cup ReasonsOfC02 \cup ReasonsOfC03 \cup ReasonsOfC04
               /\ MustAccept(p, r) =>
                    \A i \in 1..Len(all) :
                      all[i].k = "seq" /\ (r.cmd # "cosmos" \/ all[i].name \in Elems(r.msgs)) =>
                        /\ r.cmd = "cfs" => LayoutSound(all[i], env) /\ FixedSound(all[i], env)
                        /\ r.cmd = "cfs" => \A k \in 1..Len(all[i].items) : MidSound(all[i].items[k].wc)
                        /\ r.cmd = "cosmos" /\ (\A n \in DOMAIN env : DefSupported(env[n], env, "cfs"))
                             => ViewsAgree(all[i], env)
                        /\ r.cmd = "binary" /\ HasFixed(all[i]) => ImagesAgree(all[i], env)

\* a range family case is interesting on its own only when it must be refused
Wanted(c) == Family # "range" \/ Reasons(c.p, c.runs[1]) # {}

Emit ==
  Complete =>
  LET c == CaseOf(v) IN
  IF ~Wanted(c) THEN TRUE ELSE CSVWrite("%1$s", <<ToJson(c)>>, IOEnv.CASES)
==============================================================================
