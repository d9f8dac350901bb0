-------------------------------- MODULE Num --------------------------------
(* 70-bit two's complement integers as tuples of ten 7-bit limbs, least     *)
(* significant first: TLC integers are 32 bits wide and FAST integers are   *)
(* transferred as 7-bit groups, so a limb is exactly one transfer group.    *)
EXTENDS Integers, Sequences

Zero == <<0,0,0,0,0,0,0,0,0,0>>
MinusOne == <<127,127,127,127,127,127,127,127,127,127>>
One == <<1,0,0,0,0,0,0,0,0,0>>

FromInt(n) ==
  LET q1 == n \div 128  q2 == q1 \div 128  q3 == q2 \div 128  q4 == q3 \div 128
      e == IF n < 0 THEN 127 ELSE 0
  IN <<n % 128, q1 % 128, q2 % 128, q3 % 128, q4 % 128, e, e, e, e, e>>

Neg(a) == a[10] >= 64

Add(a, b) ==
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + (s1 \div 128)
      s3 == a[3] + b[3] + (s2 \div 128)
      s4 == a[4] + b[4] + (s3 \div 128)
      s5 == a[5] + b[5] + (s4 \div 128)
      s6 == a[6] + b[6] + (s5 \div 128)
      s7 == a[7] + b[7] + (s6 \div 128)
      s8 == a[8] + b[8] + (s7 \div 128)
      s9 == a[9] + b[9] + (s8 \div 128)
      s10 == a[10] + b[10] + (s9 \div 128)
  IN <<s1 % 128, s2 % 128, s3 % 128, s4 % 128, s5 % 128,
       s6 % 128, s7 % 128, s8 % 128, s9 % 128, s10 % 128>>

Not(a) == [i \in 1..10 |-> 127 - a[i]]
Minus(a) == Add(Not(a), One)
Sub(a, b) == Add(Add(a, Not(b)), One)
Inc(a) == Add(a, One)
Dec(a) == Add(a, MinusOne)

(* signed order on the 70-bit integers *)
RECURSIVE LexLt(_, _, _)
LexLt(a, b, i) == IF i = 0 THEN FALSE
                  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLt(a, b, i - 1)
Lt(a, b) == IF Neg(a) # Neg(b) THEN Neg(a) ELSE LexLt(a, b, 10)
Le(a, b) == a = b \/ Lt(a, b)

MulSmall(a, m, c) ==
  LET s1 == a[1] * m + c
      s2 == a[2] * m + (s1 \div 128)
      s3 == a[3] * m + (s2 \div 128)
      s4 == a[4] * m + (s3 \div 128)
      s5 == a[5] * m + (s4 \div 128)
      s6 == a[6] * m + (s5 \div 128)
      s7 == a[7] * m + (s6 \div 128)
      s8 == a[8] * m + (s7 \div 128)
      s9 == a[9] * m + (s8 \div 128)
      s10 == a[10] * m + (s9 \div 128)
  IN <<s1 % 128, s2 % 128, s3 % 128, s4 % 128, s5 % 128,
       s6 % 128, s7 % 128, s8 % 128, s9 % 128, s10 % 128>>

AllEq(a, from, v) == \A i \in from..10 : a[i] = v

InRange(t, a) ==
  CASE t = "u32" -> a[5] < 16 /\ AllEq(a, 6, 0)
    [] t = "i32" -> (a[5] < 8 /\ AllEq(a, 6, 0)) \/ (a[5] >= 120 /\ AllEq(a, 6, 127))
    [] t = "u64" -> a[10] < 2
    [] t = "i64" -> a[10] = 0 \/ a[10] = 127
    [] t = "exp" -> (a[1] < 64 /\ AllEq(a, 2, 0)) \/ (a[1] > 64 /\ AllEq(a, 2, 127))

(* reduction modulo 2^64 into the type *)
Wrap64(t, a) ==
  LET bit == a[10] % 2
  IN [a EXCEPT ![10] = IF t = "u64" THEN bit ELSE IF bit = 1 THEN 127 ELSE 0]

(* the successor of a value of the type: the largest value is followed by    *)
(* the smallest (FAST 1.1, 6.3.5)                                            *)
Pow2(k) == [i \in 1..10 |-> IF i = (k \div 7) + 1 THEN 2 ^ (k % 7) ELSE 0]
IncT(t, a) ==
  LET x == Add(a, One)
  IN CASE t = "i32" /\ x = Pow2(31) -> Minus(x)
       [] t = "u32" /\ x = Pow2(32) -> Zero
       [] t \in {"i64", "u64"} -> Wrap64(t, x)
       [] OTHER -> x

(* the largest n such that the value is small enough for a TLC integer *)
IsSmall(a) == a[5] = 0 /\ AllEq(a, 6, 0)
ToInt(a) == a[1] + 128 * (a[2] + 128 * (a[3] + 128 * a[4]))
SmallSigned(a) == (a[4] < 64 /\ AllEq(a, 5, 0)) \/ (a[4] >= 64 /\ AllEq(a, 5, 127))
ToIntS(a) == IF Neg(a) THEN ToInt(a) - 268435456 ELSE ToInt(a)

(* transfer groups, most significant first, without the stop bit *)
RECURSIVE MinU(_, _)
MinU(a, n) == IF n = 1 \/ a[n] # 0 THEN n ELSE MinU(a, n - 1)
RECURSIVE MinS(_, _)
MinS(a, n) ==
  IF n = 1 THEN 1
  ELSE IF (a[n] = 0 /\ a[n-1] < 64) \/ (a[n] = 127 /\ a[n-1] >= 64) THEN MinS(a, n - 1) ELSE n
Groups(signed, a) ==
  LET n == IF signed THEN MinS(a, 10) ELSE MinU(a, 10)
  IN [i \in 1..n |-> a[n + 1 - i]]
Redundant(signed, g) ==
  Len(g) > 1 /\ IF signed THEN (g[1] = 0 /\ g[2] < 64) \/ (g[1] = 127 /\ g[2] >= 64)
                ELSE g[1] = 0
FromGroups(signed, g) ==
  LET m == Len(g)
      e == IF signed /\ g[1] >= 64 THEN 127 ELSE 0
  IN [i \in 1..10 |-> IF i <= m THEN g[m + 1 - i] ELSE e]

(* decimal digits (character codes) to a number; -1 is returned as "bad"    *)
IsDigit(c) == c >= 48 /\ c <= 57
RECURSIVE Digits(_, _, _)
Digits(s, i, acc) == IF i > Len(s) THEN acc ELSE Digits(s, i + 1, MulSmall(acc, 10, s[i] - 48))
AllDigits(s, from) == from <= Len(s) /\ \A i \in from..Len(s) : IsDigit(s[i])
ParseOk(s) == IF Len(s) > 0 /\ s[1] = 45 THEN AllDigits(s, 2) ELSE AllDigits(s, 1)
Parse(s) == IF s[1] = 45 THEN Minus(Digits(s, 2, Zero)) ELSE Digits(s, 1, Zero)
=============================================================================
