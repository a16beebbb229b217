-------------------------------- MODULE Str --------------------------------
(***************************************************************************)
(* Strings for the gotext specification.                                   *)
(*                                                                         *)
(* A text is a sequence of atoms, i.e. of strings whose concatenation is   *)
(* the text.  The atoms are those of a fixed lossless lexing: each of the  *)
(* characters   " \ newline CR TAB FF VT blank # : [ ]  is an atom of its  *)
(* own, so is the character after a backslash, and every maximal run of    *)
(* other characters is one atom.  (Atoms keep long texts cheap: no operator here *)
(* ever looks inside a run, except the few marked "char by char".)         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json

NL  == "\n"
QU  == "\""
BS  == "\\"
TAB == "\t"
CR  == "\r"
Latin1 == JsonDeserialize("latin1.json")
FF  == Latin1[13]
VT  == Latin1[12]
BLANKS == {" ", TAB, CR, FF, VT}

\* concatenation of the atoms of a text (balanced, so that recursion stays shallow)
RECURSIVE CatR(_, _, _)
CatR(s, a, b) ==
  IF a > b THEN ""
  ELSE IF a = b THEN s[a]
  ELSE LET m == (a + b) \div 2 IN CatR(s, a, m) \o CatR(s, m + 1, b)
Concat(s) == CatR(s, 1, Len(s))

\* position of the first element of s, from position i on, that is in S; Len(s)+1 if there is none
RECURSIVE FindFrom(_, _, _)
FindFrom(s, i, S) == IF i > Len(s) THEN i ELSE IF s[i] \in S THEN i ELSE FindFrom(s, i + 1, S)

\* split a sequence at every occurrence of x
SplitAt(s, x) ==
  LET cuts == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = x)
      k    == Len(cuts)
      lo(j) == IF j = 1 THEN 1 ELSE cuts[j-1] + 1
      hi(j) == IF j = k + 1 THEN Len(s) ELSE cuts[j] - 1
  IN [j \in 1..(k+1) |-> SubSeq(s, lo(j), hi(j))]

RECURSIVE FirstNon(_, _, _)
FirstNon(s, i, S) == IF i > Len(s) THEN i ELSE IF s[i] \in S THEN FirstNon(s, i + 1, S) ELSE i
RECURSIVE LastNon(_, _, _)
LastNon(s, i, S) == IF i < 1 THEN 0 ELSE IF s[i] \in S THEN LastNon(s, i - 1, S) ELSE i
Trim(s) == SubSeq(s, FirstNon(s, 1, BLANKS), LastNon(s, Len(s), BLANKS))
TrimNL(s) == SubSeq(s, FirstNon(s, 1, BLANKS \cup {NL}), LastNon(s, Len(s), BLANKS \cup {NL}))

\* non-blank fields of a text
Fields(s) ==
  LET sep == BLANKS
      RECURSIVE F(_, _, _)
      F(i, cur, acc) ==
        IF i > Len(s) THEN (IF cur = <<>> THEN acc ELSE Append(acc, Concat(cur)))
        ELSE IF s[i] \in sep THEN F(i + 1, <<>>, IF cur = <<>> THEN acc ELSE Append(acc, Concat(cur)))
        ELSE F(i + 1, Append(cur, s[i]), acc)
  IN F(1, <<>>, <<>>)

----------------------------------------------------------------------------
(* char by char *)
Ch(s, i) == SubSeq(s, i, i)
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]

\* Texts are byte strings: every character stands for one byte (0 to 255) of the real text.
OrdOf == [c \in Range(Latin1) |-> (CHOOSE i \in 1..256 : Latin1[i] = c) - 1]
Ord(c) == OrdOf[c]

\* positions of a character in a string, and the string split there
StrPos(s, ch) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : Ch(s, i) = ch)
SplitStr(s, ch) ==
  LET cuts == StrPos(s, ch)
      k    == Len(cuts)
      lo(j) == IF j = 1 THEN 1 ELSE cuts[j-1] + 1
      hi(j) == IF j = k + 1 THEN Len(s) ELSE cuts[j] - 1
  IN [j \in 1..(k+1) |-> SubSeq(s, lo(j), hi(j))]
\* a string cut at the first occurrence of a character
CutAt(s, ch) ==
  LET cuts == StrPos(s, ch) IN
  IF cuts = <<>> THEN [found |-> FALSE, a |-> s, b |-> ""]
  ELSE [found |-> TRUE, a |-> SubSeq(s, 1, cuts[1] - 1), b |-> SubSeq(s, cuts[1] + 1, Len(s))]

UPPER == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LOWER == "abcdefghijklmnopqrstuvwxyz"
LowC == [c \in {SubSeq(UPPER, i, i) : i \in 1..26} |->
           LET i == CHOOSE i \in 1..26 : SubSeq(UPPER, i, i) = c IN SubSeq(LOWER, i, i)]
Lower(s) == Concat([i \in 1..Len(s) |-> IF Ch(s, i) \in DOMAIN LowC THEN LowC[Ch(s, i)] ELSE Ch(s, i)])

DIGITS == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal == [d \in DIGITS |-> CHOOSE v \in 0..9 : ToString(v) = d]
IsDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Ch(s, i) \in DIGITS
RECURSIVE ToNatR(_, _, _)
ToNatR(s, i, v) == IF i > Len(s) THEN v ELSE ToNatR(s, i + 1, v * 10 + DigitVal[Ch(s, i)])
ToNat(s) == ToNatR(s, 1, 0)       \* for at most 9 digits

\* byte-wise order
RECURSIVE StrLessR(_, _, _)
StrLessR(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE LET x == Ord(Ch(a, i)) y == Ord(Ch(b, i)) IN
       IF x < y THEN TRUE ELSE IF x > y THEN FALSE ELSE StrLessR(a, b, i + 1)
StrLess(a, b) == a # b /\ StrLessR(a, b, 1)

\* lossless lexing of a string into atoms, char by char (only for short strings)
SPECIAL == {QU, BS, NL, "#", ":", "[", "]"} \cup BLANKS
Lex(s) ==
  LET RECURSIVE L(_, _, _)
      L(i, start, acc) ==   \* a run is open from start to i-1
        LET flush == IF start < i THEN Append(acc, SubSeq(s, start, i - 1)) ELSE acc IN
        IF i > Len(s) THEN flush
        ELSE LET c == Ch(s, i) IN
          IF c = BS /\ i < Len(s) /\ Ch(s, i + 1) # NL
            THEN L(i + 2, i + 2, Append(Append(flush, c), Ch(s, i + 1)))
          ELSE IF c \in SPECIAL THEN L(i + 1, i + 1, Append(flush, c))
          ELSE L(i + 1, start, acc)
  IN L(1, 1, <<>>)
=============================================================================
