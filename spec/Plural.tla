------------------------------- MODULE Plural -------------------------------
(***************************************************************************)
(* Plural-Forms rules: a C expression over n, its grammar and its value.   *)
(*                                                                         *)
(* Numbers are unsigned 32-bit, written as two 16-bit limbs <<hi, lo>>,    *)
(* because TLC's integers are 32-bit signed.                               *)
(***************************************************************************)
EXTENDS Str, Integers

\* ---- arithmetic on limbs ------------------------------------------------
B16 == 65536
N2(hi, lo) == <<hi, lo>>
Small(i) == <<i \div B16, i % B16>>
LtL(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
SubL(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>>
              ELSE <<a[1] - b[1] - 1, a[2] + B16 - b[2]>>
Fits30(a) == a[1] < 16384                      \* value below 2^30
ToInt(a) == a[1] * B16 + a[2]                    \* only if a[1] < 32768
\* times ten plus a digit; <<-1, -1>> on overflow
Mul10(a, d) ==
  IF a[1] < 0 THEN a
  ELSE LET l == a[2] * 10 + d
           h == a[1] * 10 + l \div B16
       IN IF h >= B16 THEN <<-1, -1>> ELSE <<h, l % B16>>
RECURSIVE DecR(_, _, _)
DecR(s, i, v) == IF i > Len(s) THEN v ELSE DecR(s, i + 1, Mul10(v, DigitVal[Ch(s, i)]))
Dec(s) == DecR(s, 1, <<0, 0>>)                 \* value of a digit string

RECURSIVE ModBits(_, _, _, _)
\* remainder of the bits b-1 .. 0 of a, appended to remainder r, by k < 2^30
Pow2 == [i \in 0..16 |-> 2^i]
BitOf(a, b) == IF b >= 16 THEN (a[1] \div Pow2[b - 16]) % 2 ELSE (a[2] \div Pow2[b]) % 2
ModBits(a, b, r, k) == IF b = 0 THEN r ELSE ModBits(a, b - 1, (2 * r + BitOf(a, b - 1)) % k, k)
RECURSIVE ModSub(_, _)
ModSub(a, k) == IF LtL(a, k) THEN a ELSE ModSub(SubL(a, k), k)
ModL(a, k) ==
  IF ~Fits30(k) THEN ModSub(a, k)
  ELSE LET m == ToInt(k) IN
       IF m <= 46340 THEN Small(((a[1] % m) * (B16 % m) + a[2]) % m)
       ELSE Small(ModBits(a, 32, 0, m))

\* ---- tokens ---------------------------------------------------------------
WS == {" ", TAB, NL, CR}
TWO == {"||", "&&", "==", "!=", ">=", "<="}
ONE == {"?", ":", "<", ">", "%", "(", ")", "n"}
Tokens(s) ==
  LET RECURSIVE T(_, _)
      RECURSIVE NumEnd(_)
      NumEnd(i) == IF i <= Len(s) /\ Ch(s, i) \in DIGITS THEN NumEnd(i + 1) ELSE i
      T(i, acc) ==
        IF i > Len(s) THEN acc
        ELSE LET c == Ch(s, i) IN
          IF c \in WS THEN T(i + 1, acc)
          ELSE IF i < Len(s) /\ SubSeq(s, i, i + 1) \in TWO THEN T(i + 2, Append(acc, SubSeq(s, i, i + 1)))
          ELSE IF c \in ONE THEN T(i + 1, Append(acc, c))
          ELSE IF c \in DIGITS THEN LET e == NumEnd(i) IN T(e, Append(acc, SubSeq(s, i, e - 1)))
          ELSE T(i + 1, Append(acc, "BAD"))
  IN T(1, <<>>)

\* ---- grammar: recursive descent; a result is [ok, ast, pos] ----------------
NONE == [k |-> "none"]                         \* no expression
FAIL == [ok |-> FALSE, ast |-> NONE, pos |-> 0]
R(ast, pos) == [ok |-> TRUE, ast |-> ast, pos |-> pos]
Bin(op, a, b) == [k |-> "bin", op |-> op, a |-> a, b |-> b]
At(t, p) == IF p <= Len(t) THEN t[p] ELSE "EOF"

RECURSIVE PExpr(_, _), PLeft(_, _, _), PLeftLoop(_, _, _, _)
PPrimary(t, p) ==
  LET x == At(t, p) IN
  IF x = "n" THEN R([k |-> "n"], p + 1)
  ELSE IF IsDigits(x) THEN R([k |-> "c", v |-> Dec(x)], p + 1)
  ELSE IF x = "(" THEN
    LET r == PExpr(t, p + 1) IN
    IF r.ok /\ At(t, r.pos) = ")" THEN R([k |-> "par", a |-> r.ast], r.pos + 1) ELSE FAIL
  ELSE FAIL
\* binary operators by level, lowest first
LEVELS == << {"||"}, {"&&"}, {"==", "!="}, {"<", ">", "<=", ">="}, {"%"} >>
PLeft(t, p, lv) ==
  IF lv > Len(LEVELS) THEN PPrimary(t, p)
  ELSE LET r == PLeft(t, p, lv + 1) IN IF r.ok THEN PLeftLoop(t, r.ast, r.pos, lv) ELSE FAIL
PLeftLoop(t, ast, p, lv) ==
  IF At(t, p) \in LEVELS[lv]
    THEN LET r == PLeft(t, p + 1, lv + 1) IN
         IF r.ok THEN PLeftLoop(t, Bin(At(t, p), ast, r.ast), r.pos, lv) ELSE FAIL
    ELSE R(ast, p)
PExpr(t, p) ==
  LET c == PLeft(t, p, 1) IN
  IF ~c.ok THEN FAIL
  ELSE IF At(t, c.pos) # "?" THEN c
  ELSE LET x == PExpr(t, c.pos + 1) IN
       IF ~x.ok \/ At(t, x.pos) # ":" THEN FAIL
       ELSE LET y == PExpr(t, x.pos + 1) IN
            IF ~y.ok THEN FAIL ELSE R([k |-> "if", c |-> c.ast, x |-> x.ast, y |-> y.ast], y.pos)

CMP == {"==", "!=", "<", "<=", ">", ">="}
\* the grammar the property speaks about
RECURSIVE IsCond(_), IsValue(_), BadNumber(_)
IsInt(a) == a.k = "c"
TooBig(a) == a.k = "c" /\ a.v[1] < 0           \* beyond 2^32-1
IsNum(a) == a.k = "n" \/ (a.k = "bin" /\ a.op = "%" /\ a.a.k = "n" /\ IsInt(a.b))
IsCond(a) ==
  \/ a.k = "par" /\ IsCond(a.a)
  \/ a.k = "bin" /\ a.op \in CMP /\ ((IsNum(a.a) /\ IsInt(a.b)) \/ (IsInt(a.a) /\ IsNum(a.b)))
  \/ a.k = "bin" /\ a.op \in {"||", "&&"} /\ IsCond(a.a) /\ IsCond(a.b)
IsValue(a) ==
  \/ IsInt(a) /\ ~TooBig(a) /\ Fits30(a.v)
  \/ IsCond(a)
  \/ a.k = "par" /\ IsValue(a.a)
  \/ a.k = "if" /\ IsCond(a.c) /\ IsValue(a.x) /\ IsValue(a.y)
IsRule(a) == IsValue(a)
\* a modulus of zero, or an operand beyond 2^32-1
BadNumber(a) ==
  CASE a.k = "par" -> BadNumber(a.a)
    [] a.k = "bin" -> (a.op = "%" /\ a.b.k = "c" /\ a.b.v = <<0, 0>>)
                      \/ TooBig(a.a) \/ TooBig(a.b) \/ BadNumber(a.a) \/ BadNumber(a.b)
    [] a.k = "if"  -> BadNumber(a.c) \/ BadNumber(a.x) \/ BadNumber(a.y)
    [] OTHER -> FALSE

\* what Compile has to do with a rule: "ok" with the ast, "error", or "unclaimed"
Compile(s) ==
  LET t == Tokens(s)
      r == PExpr(t, 1)
  IN IF ~r.ok \/ r.pos # Len(t) + 1 \/ "BAD" \in Range(t) THEN [v |-> "error", ast |-> NONE]
     ELSE IF BadNumber(r.ast) THEN [v |-> "error", ast |-> NONE]
     ELSE IF IsRule(r.ast) THEN [v |-> "ok", ast |-> r.ast]
     ELSE [v |-> "unclaimed", ast |-> [k |-> "unclaimed"]]

\* ---- value ------------------------------------------------------------------
Truth(b) == IF b THEN <<0, 1>> ELSE <<0, 0>>
RECURSIVE Val(_, _)
Val(a, n) ==
  CASE a.k = "n"   -> n
    [] a.k = "c"   -> a.v
    [] a.k = "par" -> Val(a.a, n)
    [] a.k = "if"  -> IF Val(a.c, n) # <<0, 0>> THEN Val(a.x, n) ELSE Val(a.y, n)
    [] a.k = "bin" ->
       CASE a.op = "%"  -> ModL(Val(a.a, n), Val(a.b, n))
         [] a.op = "==" -> Truth(Val(a.a, n) = Val(a.b, n))
         [] a.op = "!=" -> Truth(Val(a.a, n) # Val(a.b, n))
         [] a.op = "<"  -> Truth(LtL(Val(a.a, n), Val(a.b, n)))
         [] a.op = ">"  -> Truth(LtL(Val(a.b, n), Val(a.a, n)))
         [] a.op = "<=" -> Truth(~LtL(Val(a.b, n), Val(a.a, n)))
         [] a.op = ">=" -> Truth(~LtL(Val(a.a, n), Val(a.b, n)))
         [] a.op = "&&" -> Truth(Val(a.a, n) # <<0, 0>> /\ Val(a.b, n) # <<0, 0>>)
         [] a.op = "||" -> Truth(Val(a.a, n) # <<0, 0>> \/ Val(a.b, n) # <<0, 0>>)
Eval(ast, n) == ToInt(Val(ast, n))

Germanic(n) == IF n = <<0, 1>> THEN 0 ELSE 1
=============================================================================
