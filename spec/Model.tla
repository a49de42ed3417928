------------------------------- MODULE Model -------------------------------
(* The project: what the .asn files say.                                     *)
(*                                                                           *)
(*  project  [modules : Seq(module), malformed : BOOLEAN]                    *)
(*  module   [name, imports : Seq([from, names, cmt]), cmt, icmt, defs]      *)
(*  def      [k : "seq"|"choice", name, cmt, items : Seq(item)]              *)
(*         | [k : "enum", name, cmt, enum : Seq([key, pos : big, cmt])]      *)
(*         | [k : "simple", name, cmt, type]                                 *)
(*  item     [key, type, cmt, wc : Seq(comp), wcmt]                          *)
(*  comp     [key, cmt, k : "int"|"real"|"bool", ...value...]                *)
(*         | [key, cmt, k : "wc", wc : Seq(comp), wcmt]                      *)
(*             value: int (big), f64 (double), f32 (4 bytes), bool           *)
(*  type     [k:"int"|"real", rng, lo, hi] | [k:"bool"] | [k:"null"]         *)
(*         | [k:"str", len] | [k:"arr", len, elem] | [k:"ref", name]         *)
(*  comment  [has, little, unit, text]                                       *)
(*                                                                           *)
(*  run      [cmd : "cfs"|"c"|"binary"|"cosmos", args : Seq(name),           *)
(*            msgs : Seq(name), target, endian, missing : BOOLEAN]           *)
EXTENDS Naturals, Sequences, FiniteSets, Num, Text

Elems(s) == {s[i] : i \in 1..Len(s)}

RECURSIVE FlatSeq(_)
FlatSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlatSeq(Tail(ss))

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE SelectIdx(_, _, _)      \* indices i >= from with Op
SelectIdx(s, Test(_), from) ==
  IF from > Len(s) THEN <<>>
  ELSE (IF Test(s[from]) THEN <<from>> ELSE <<>>) \o SelectIdx(s, Test, from + 1)

AllDefs(p)     == FlatSeq([i \in 1..Len(p.modules) |-> p.modules[i].defs])
ModuleNames(p) == {p.modules[i].name : i \in 1..Len(p.modules)}
DefNames(m)    == {m.defs[i].name : i \in 1..Len(m.defs)}

\* type name -> definition (the first one, should there be several)
Env(p) ==
  LET all == AllDefs(p)
  IN  [n \in {all[i].name : i \in 1..Len(all)} |->
         all[CHOOSE i \in 1..Len(all) :
               all[i].name = n /\ \A j \in 1..(i - 1) : all[j].name # n]]

IsComposite(d) == d.k \in {"seq", "choice"}

\* the innermost element type of a type
RECURSIVE Core(_)
Core(t) == IF t.k = "arr" THEN Core(t.elem) ELSE t

\* user-defined names a type refers to
Refs(t) == IF Core(t).k = "ref" THEN {Core(t).name} ELSE {}

\* all types written in a definition, with array elements
RECURSIVE Within(_)
Within(t) == IF t.k = "arr" THEN {t} \cup Within(t.elem) ELSE {t}

TypesIn(d) ==
  IF IsComposite(d) THEN UNION {Within(d.items[i].type) : i \in 1..Len(d.items)}
  ELSE IF d.k = "simple" THEN Within(d.type)
  ELSE {}

RECURSIVE CompCmts(_)
CompCmts(wc) ==
  UNION {{wc[i].cmt} \cup (IF wc[i].k = "wc" THEN {wc[i].wcmt} \cup CompCmts(wc[i].wc) ELSE {}) :
           i \in 1..Len(wc)}

CmtsIn(d) ==
  {d.cmt} \cup
  (IF IsComposite(d) THEN {d.items[i].cmt : i \in 1..Len(d.items)}
                          \cup {d.items[i].wcmt : i \in 1..Len(d.items)}
                          \cup UNION {CompCmts(d.items[i].wc) : i \in 1..Len(d.items)}
   ELSE IF d.k = "enum" THEN {d.enum[i].cmt : i \in 1..Len(d.enum)}
   ELSE {})

\* named simple types stand for the type they name
Resolve(t, env) ==
  IF t.k = "ref" /\ t.name \in DOMAIN env /\ env[t.name].k = "simple"
  THEN env[t.name].type ELSE t

\* the definition a reference points to
Target(t, env) == env[Core(t).name]

Keys(items) == {items[i].key : i \in 1..Len(items)}
ItemAt(items, key) == items[CHOOSE i \in 1..Len(items) : items[i].key = key]

\* modules whose definitions can be reached from a module through imports
RECURSIVE ReachFrom(_, _, _)
ReachFrom(S, edges, fuel) ==
  LET T == S \cup UNION {edges[x] : x \in S}
  IN  IF T = S \/ fuel = 0 THEN S ELSE ReachFrom(T, edges, fuel - 1)

ImportEdges(p) ==
  [n \in ModuleNames(p) |->
     {f \in UNION {{p.modules[i].imports[j].from :
                      j \in 1..Len(p.modules[i].imports)} :
                   i \in {x \in 1..Len(p.modules) : p.modules[x].name = n}} :
        f \in ModuleNames(p)}]

TypeEdges(env) ==
  LET comp == {n \in DOMAIN env : IsComposite(env[n])}
  IN  [n \in comp |->
         {r \in UNION {Refs(env[n].items[i].type) : i \in 1..Len(env[n].items)} :
            r \in comp}]

\* nodes that remain after peeling off nodes without remaining successors
RECURSIVE Peel(_, _)
Peel(S, edges) ==
  LET free == {x \in S : edges[x] \cap S = {}}
  IN  IF free = {} THEN S ELSE Peel(S \ free, edges)

Cyclic(edges) == Peel(DOMAIN edges, edges) # {}
===========================================================================
