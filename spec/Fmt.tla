-------------------------------- MODULE Fmt --------------------------------
(***************************************************************************)
(* Formatting: what a text becomes with arguments.                         *)
(*                                                                         *)
(* Sprintf covers the verbs s, d, v with an optional blank flag, the       *)
(* escaped percent sign, unknown verbs, and fmt's notes on missing and     *)
(* extra arguments, over integer and string arguments ([t, v] records,     *)
(* t = "i" or "s", or "l" for a value that looks something up while it is  *)
(* formatted and formats as a string).                                     *)
(***************************************************************************)
EXTENDS Str, Integers

TypeName(a) == IF a.t = "i" THEN "int" ELSE "string"
\* (the name of the harness's type shows only in fmt's note on extra arguments)
ExtraName(a) == IF a.t = "l" THEN "main.asker" ELSE TypeName(a)
IntText(v) == IF v < 0 THEN "-" \o ToString(0 - v) ELSE ToString(v)
Plain(a) == IF a.t = "i" THEN IntText(a.v) ELSE a.v
\* with the blank flag, integers get a place for their sign
Spaced(a, sp) == IF a.t = "i" /\ sp /\ a.v >= 0 THEN " " \o IntText(a.v) ELSE Plain(a)
Good(a, verb) == verb = "v" \/ (verb = "s" /\ a.t # "i") \/ (verb = "d" /\ a.t = "i")
One(a, verb, sp) ==
  IF Good(a, verb) THEN Spaced(a, sp)
  ELSE "%!" \o verb \o "(" \o TypeName(a) \o "=" \o Spaced(a, sp) \o ")"

Extra(args, k) ==
  IF k > Len(args) THEN ""
  ELSE LET part(i) == ExtraName(args[i]) \o "=" \o Plain(args[i])
           RECURSIVE J(_)
           J(i) == IF i = Len(args) THEN part(i) ELSE part(i) \o ", " \o J(i + 1)
       IN "%!(EXTRA " \o J(k) \o ")"

\* ps: positions of the percent signs not yet handled, in order
PercentPos(s) == StrPos(s, "%")
Sprintf(s, args) ==
  LET ps == PercentPos(s)
      RECURSIVE W(_, _, _, _)
      \* from: start of the text not yet written; j: next percent sign; k: next argument
      W(from, j, k, acc) ==
        IF j > Len(ps) THEN acc \o SubSeq(s, from, Len(s)) \o Extra(args, k)
        ELSE IF ps[j] < from THEN W(from, j + 1, k, acc)
        ELSE LET p == ps[j]
                 pre == acc \o SubSeq(s, from, p - 1)
                 sp == p < Len(s) /\ Ch(s, p + 1) = " "
                 v == p + (IF sp THEN 2 ELSE 1)
             IN IF v > Len(s) THEN W(Len(s) + 1, Len(ps) + 1, k, pre \o "%!(NOVERB)")
                ELSE IF Ch(s, v) = "%" THEN W(v + 1, j + 1, k, pre \o "%")
                ELSE IF k > Len(args)
                       THEN W(v + 1, j + 1, k, pre \o "%!" \o Ch(s, v) \o "(MISSING)")
                ELSE W(v + 1, j + 1, k + 1, pre \o One(args[k], Ch(s, v), sp))
  IN W(1, 1, 1, "")

\* lookups format only when there are arguments
Format(s, args) == IF args = <<>> THEN s ELSE Sprintf(s, args)

\* ---- named formatting -----------------------------------------------------
\* A template is made of text, %% and parameters %(name) followed by an optional minimal width (a leading
\* zero pads numbers with zeros) or, for strings, a precision, and one of the verbs s, d, v.
RECURSIVE Pad(_, _, _)
Pad(s, c, w) == IF Len(s) >= w THEN s ELSE Pad(c \o s, c, w)
\* (a verb that does not fit is noted with the argument printed by %v, with the same width)
RECURSIVE Sized(_, _, _)
Sized(a, verb, mod) ==
  IF mod = "" THEN One(a, verb, FALSE)
  ELSE IF ~Good(a, verb) THEN "%!" \o verb \o "(" \o TypeName(a) \o "=" \o Sized(a, "v", mod) \o ")"
  ELSE IF Ch(mod, 1) = "." THEN LET k == ToNat(SubSeq(mod, 2, Len(mod))) IN
       IF Len(Plain(a)) <= k THEN Plain(a) ELSE SubSeq(Plain(a), 1, k)
  ELSE IF Ch(mod, 1) = "0" /\ a.t = "i"
    THEN IF a.v < 0 THEN "-" \o Pad(IntText(0 - a.v), "0", ToNat(mod) - 1) ELSE Pad(IntText(a.v), "0", ToNat(mod))
  ELSE Pad(Plain(a), " ", ToNat(mod))
\* params: sequence of <<name, argument>>; conv: what fmt makes of arguments that this module does not know, for
\* the conversions in the template: sequence of <<name, conversion, text>>
NamedFmt(s, params, conv) ==
  LET ps == PercentPos(s)
      valOf(nm) == LET js == {j \in 1..Len(params) : params[j][1] = nm}
                   IN params[CHOOSE j \in js : TRUE][2]
      RECURSIVE W(_, _, _), Verb(_)
      Conv(nm, c) == conv[CHOOSE j \in 1..Len(conv) : conv[j][1] = nm /\ conv[j][2] = c][3]
      Verb(i) == IF Ch(s, i) \in DIGITS \cup {"."} THEN Verb(i + 1) ELSE i
      W(from, j, acc) ==
        IF j > Len(ps) THEN acc \o SubSeq(s, from, Len(s))
        ELSE IF ps[j] < from THEN W(from, j + 1, acc)
        ELSE LET p == ps[j]
                 pre == acc \o SubSeq(s, from, p - 1)
             IN IF Ch(s, p + 1) = "%" THEN W(p + 2, j + 1, pre \o "%")
                ELSE LET rest == CutAt(SubSeq(s, p + 2, Len(s)), ")")
                         after == p + 2 + Len(rest.a) + 1
                         v == Verb(after)
                     IN W(v + 1, j + 1, pre \o IF conv # <<>> THEN Conv(rest.a, SubSeq(s, after, v)) ELSE Sized(valOf(rest.a), Ch(s, v), SubSeq(s, after, v - 1)))
  IN W(1, 1, "")
=============================================================================
