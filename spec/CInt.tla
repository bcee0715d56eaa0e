-------------------------------- MODULE CInt --------------------------------
(* C's `int` (32-bit two's complement) arithmetic as partial functions:      *)
(* every operator returns BAD when C leaves the result undefined (overflow,  *)
(* division by zero, out-of-range shift) or when it is -2^31, which this     *)
(* specification reserves for BAD.                                           *)
EXTENDS Integers
BW == INSTANCE Bitwise

MAXI == 2147483647
BAD  == -2147483647 - 1

Abs(a) == IF a < 0 THEN -a ELSE a

Add(a, b) == IF b > 0 THEN IF a > MAXI - b THEN BAD ELSE a + b
             ELSE IF a < -MAXI - b THEN BAD ELSE a + b
Neg(a)    == -a
Sub(a, b) == Add(a, -b)
Mul(a, b) == IF a = 0 \/ b = 0 THEN 0
             ELSE IF Abs(a) > MAXI \div Abs(b) THEN BAD ELSE a * b
(* Division truncates towards zero and the remainder has the sign of the dividend *)
Div(a, b) == IF b = 0 THEN BAD
             ELSE IF (a < 0) = (b < 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))
Rem(a, b) == IF b = 0 THEN BAD
             ELSE IF a < 0 THEN -(Abs(a) % Abs(b)) ELSE Abs(a) % Abs(b)
Cpl(a)    == -1 - a
(* Guarded against BAD itself, since ~MAXI is -2^31 *)
BNot(a)   == IF a = MAXI THEN BAD ELSE Cpl(a)

(* Bitwise operators, reduced to the conjunction of non-negative numbers *)
AndNN(a, b) == BW!&(a, b)
BAnd(a, b) == IF a >= 0 /\ b >= 0 THEN AndNN(a, b)
              ELSE IF a >= 0 THEN a - AndNN(a, Cpl(b))
              ELSE IF b >= 0 THEN b - AndNN(b, Cpl(a))
              ELSE (* ~(~a | ~b) *)
                   LET x == Cpl(a) y == Cpl(b) o == x + (y - AndNN(x, y))
                   IN BNot(o)
BOr(a, b)  == (* ~(~a & ~b) *) LET r == BAnd(Cpl(a), Cpl(b)) IN IF r = BAD THEN MAXI ELSE BNot(r)
BXor(a, b) == IF (a >= 0) = (b >= 0)
              THEN LET x == IF a >= 0 THEN a ELSE Cpl(a)
                       y == IF b >= 0 THEN b ELSE Cpl(b)
                       n == AndNN(x, y) IN (x - n) + (y - n)
              ELSE LET x == IF a >= 0 THEN a ELSE Cpl(a)
                       y == IF b >= 0 THEN b ELSE Cpl(b)
                       n == AndNN(x, y) IN BNot((x - n) + (y - n))

Pow2 == [i \in 0..30 |-> 2^i]
Shl(a, n) == IF n < 0 \/ n > 30 \/ a < 0 THEN BAD
             ELSE IF a > MAXI \div Pow2[n] THEN BAD ELSE a * Pow2[n]
(* Right shift of negative numbers is arithmetic in all implementations concerned *)
Shr(a, n) == IF n < 0 \/ n > 31 THEN BAD
             ELSE IF n = 31 THEN (IF a < 0 THEN -1 ELSE 0) ELSE a \div Pow2[n]

Bool(x) == IF x THEN 1 ELSE 0

BinOp(op, a, b) ==
  IF a = BAD \/ b = BAD THEN BAD ELSE
  CASE op = "+"  -> Add(a, b)  [] op = "-"  -> Sub(a, b)  [] op = "*"  -> Mul(a, b)
    [] op = "/"  -> Div(a, b)  [] op = "%"  -> Rem(a, b)
    [] op = "&"  -> BAnd(a, b) [] op = "|"  -> BOr(a, b)  [] op = "^"  -> BXor(a, b)
    [] op = "<<" -> Shl(a, b)  [] op = ">>" -> Shr(a, b)
    [] op = "<"  -> Bool(a < b)   [] op = "<=" -> Bool(a <= b)
    [] op = ">"  -> Bool(a > b)   [] op = ">=" -> Bool(a >= b)
    [] op = "==" -> Bool(a = b)   [] op = "!=" -> Bool(a # b)

UnOp(op, a) ==
  IF a = BAD THEN BAD ELSE
  CASE op = "-" -> Neg(a) [] op = "~" -> BNot(a) [] op = "!" -> Bool(a = 0)
    [] op = "+" -> a      [] op = "(int)" -> a   [] op = "()" -> a
=============================================================================
