------------------------------ MODULE MoImage ------------------------------
(***************************************************************************)
(* The GNU MO file format: what an image (a byte string) says.             *)
(***************************************************************************)
EXTENDS PoText

EOT == Latin1[5]
NUL == Latin1[1]

\* numbers are limbs <<hi, lo>>; offsets count from 0
Byte(b, o) == Ord(Ch(b, o + 1))
U16(b, o, le) == IF le THEN Byte(b, o) + 256 * Byte(b, o+1) ELSE 256 * Byte(b, o) + Byte(b, o+1)
U32(b, o, le) == IF le THEN <<U16(b, o+2, le), U16(b, o, le)>> ELSE <<U16(b, o, le), U16(b, o+2, le)>>
\* limbs as an integer, or more than any image is long
Int30(x) == IF Fits30(x) THEN ToInt(x) ELSE 1073741823

Magic(b) == LET m == [i \in 1..4 |-> Byte(b, i - 1)] IN
            IF m = <<222, 18, 4, 149>> THEN "le" ELSE IF m = <<149, 4, 18, 222>> THEN "be" ELSE "none"

\* the string a table entry describes: [ok, s]
StringAt(b, tab, i, le) ==
  LET len == Int30(U32(b, tab + 8*i, le))
      off == Int30(U32(b, tab + 8*i + 4, le))
  IN IF len > Len(b) \/ off > Len(b) \/ off + len > Len(b) THEN [ok |-> FALSE, s |-> ""]
     ELSE [ok |-> TRUE, s |-> SubSeq(b, off + 1, off + len)]

\* the message a pair of strings stands for
Message(id, tr) ==
  LET x == CutAt(id, EOT)
      ctx == IF x.found THEN CtxOf(x.a) ELSE ""
      y == CutAt(IF x.found THEN x.b ELSE id, NUL)
      fs == SplitStr(tr, NUL)
  IN [key |-> <<ctx, y.a>>,
      ent |-> [pl |-> y.b, f |-> [j \in {ToString(k - 1) : k \in 1..Len(fs)} |-> fs[ToNat(j) + 1]],
               refs |-> <<>>, dirty |-> FALSE]]

\* reading an image: v is "ok", "reject" or "damaged" (some string is not inside the file);
\* msgs are the messages whose strings are, in table order
ReadMo(b) ==
  LET n == Len(b)
      m == IF n < 28 THEN "none" ELSE Magic(b)
      le == m = "le"
      count == Int30(U32(b, 8, le))
      ids == Int30(U32(b, 12, le))
      trs == Int30(U32(b, 16, le))
      maj == IF le THEN U16(b, 6, le) ELSE U16(b, 4, le)
      min == IF le THEN U16(b, 4, le) ELSE U16(b, 6, le)
      pair(i) == [id |-> StringAt(b, ids, i - 1, le), tr |-> StringAt(b, trs, i - 1, le)]
      all == [i \in 1..count |-> pair(i)]
      good == SelectSeq(all, LAMBDA p : p.id.ok /\ p.tr.ok)
  IN IF m = "none" THEN [v |-> "reject", msgs |-> <<>>]
     ELSE IF maj > 1 \/ min > 1 THEN [v |-> "reject", msgs |-> <<>>]
     ELSE IF count > n \div 8 \/ (count > 0 /\ (ids > n \/ trs > n \/ ids + 8*count > n \/ trs + 8*count > n))
       THEN [v |-> "reject", msgs |-> <<>>]
     ELSE [v |-> IF Len(good) = count THEN "ok" ELSE "damaged",
           msgs |-> [i \in 1..Len(good) |-> Message(good[i].id.s, good[i].tr.s)]]

RECURSIVE Load(_, _, _)
Load(c, ms, i) == IF i > Len(ms) THEN c ELSE Load(PutEnt(c, ms[i].key[1], ms[i].key[2], ms[i].ent), ms, i + 1)
LoadMo(c, ms) == LET d == Load(c, ms, 1) IN ReadHeaders(d, HeaderAtoms(d))
=============================================================================
