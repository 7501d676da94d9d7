------------------------------- MODULE LnFix -------------------------------
(* Fixed-point logarithm for 32-bit integers.                               *)
EXTENDS Num

Ln2 == 69314718
\* round(10^8 ln(1 + 2^-k)), k = 1..26
LnT == <<40546511, 22314355, 11778304, 6062462, 3077166, 1550419, 778214, 389864, 195122, 97609, 48816, 24411, 12206, 6103, 3052, 1526, 763, 381, 191, 95, 48, 24, 12, 6, 3, 1>>
P2 == [k \in 0..30 |-> 2^k]
LOCAL Norm[y \in Nat] == IF y >= 536870912 THEN <<y, 0>>
                          ELSE LET r == Norm[2 * y] IN <<r[1], r[2] + 1>>
\* natural logarithm of the integer v (1 <= v < 2^30) in units of 10^-8, error below 2 * 10^-7
Ln8(v) ==
  LET nm == Norm[v]
      r == FoldLeft(LAMBDA a, k : LET q == a[1] + a[1] \div P2[k]
                                  IN IF q <= nm[1] THEN <<q, a[2] + LnT[k]>> ELSE a,
                    <<536870912, 0>>, [k \in 1..26 |-> k])
  IN r[2] + (29 - nm[2]) * Ln2
Ln7(v) == (Ln8(v) + 5) \div 10
Ln6(v) == (Ln8(v) + 50) \div 100

\* The functional equation fixes the logarithm up to its base.
LnOk == /\ Ln8(1) = 0 /\ Abs(Ln8(10) - 230258509) <= 20
        /\ \A a \in {2, 3, 7, 12, 99, 1000}, b \in {3, 5, 11, 640, 4099} :
             Abs(Ln8(a) + Ln8(b) - Ln8(a * b)) <= 60
        /\ \A v \in {1, 2, 5, 100, 12345, 9999999} : Ln8(v) < Ln8(v + 1)
ASSUME LnOk
=============================================================================
