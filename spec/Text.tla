------------------------------- MODULE Text -------------------------------
(* Names and comment texts.  TLC strings are handled character by character *)
(* (SubSeq on a string is a string).                                        *)
EXTENDS Naturals, Sequences

LOCAL LowerAlpha == "abcdefghijklmnopqrstuvwxyz"
LOCAL UpperAlpha == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LOCAL Char(s, i) == SubSeq(s, i, i)
LOCAL UpperOf == [c \in {Char(LowerAlpha, i) : i \in 1..26} |->
                    Char(UpperAlpha, CHOOSE i \in 1..26 : Char(LowerAlpha, i) = c)]
LOCAL LowerOf == [c \in {Char(UpperAlpha, i) : i \in 1..26} |->
                    Char(LowerAlpha, CHOOSE i \in 1..26 : Char(UpperAlpha, i) = c)]

RECURSIVE CNameFrom(_, _)
CNameFrom(s, i) ==
  IF i > Len(s) THEN ""
  ELSE (IF Char(s, i) = "-" THEN "_" ELSE Char(s, i)) \o CNameFrom(s, i + 1)

\* ASN.1 identifier -> C identifier
CName(s) == CNameFrom(s, 1)

RECURSIVE UpperFrom(_, _)
UpperFrom(s, i) ==
  IF i > Len(s) THEN ""
  ELSE LET c == Char(s, i)
       IN  (IF c \in DOMAIN UpperOf THEN UpperOf[c] ELSE c) \o UpperFrom(s, i + 1)

\* ASN.1 identifier -> macro name
MacroName(s) == UpperFrom(CName(s), 1)

\* ASN.1 type name -> name of the variable / image holding its fixed values
VarName(s) ==
  LET c == CName(s)
      h == Char(c, 1)
  IN  (IF h \in DOMAIN LowerOf THEN LowerOf[h] ELSE h) \o SubSeq(c, 2, Len(c))

\* comment texts that would end or escape the text in an artefact
BadComment(s) ==
  \/ \E i \in 1..Len(s) : Char(s, i) \in {"[", "]", "\"", "\\"}
  \/ \E i \in 1..(Len(s) - 1) : SubSeq(s, i, i + 1) \in {"--", "*/"}
===========================================================================
