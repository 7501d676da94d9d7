------------------------------ MODULE Cepstral ------------------------------
(* Log spectra, mel filter bank, decibels.  Logs in units of 10^-6.         *)
EXTENDS LnFix, Dft

\* b/a in units of 2^-15, rounded (0 <= b <= a < 2^30), by long division
Ratio15(b, a) ==
  LET d == FoldLeft(LAMBDA u, k : LET c == 2 * u[1] IN IF c >= a THEN <<c - a, 2 * u[2] + 1>> ELSE <<c, 2 * u[2]>>,
                    IF b = a THEN <<0, 1>> ELSE <<b, 0>>, [k \in 1..15 |-> k])
  IN IF d[1] >= a - d[1] THEN d[2] + 1 ELSE d[2]
\* ln of the modulus of a complex number given in 10^-6 units (not both 0)
LnMod(re, im) ==
  LET a == Max2(Abs(re), Abs(im))  b == Min2(Abs(re), Abs(im))
      r == Ratio15(b, a)
  IN Ln6(a) - 13815511 + (Ln6(268435456 + (r * r) \div 4) - Ln6(268435456)) \div 2

\* --------------------------------------------------------------- mel bank
\* Centre bin of mel point i (0..nf+1) is floor(v) with
\*   v = 700 ((1 + rate/1400)^(i/(nf+1)) - 1) (n+1)/rate,
\* that is the largest b with (nf+1) ln(1 + b rate/(700 (n+1))) <= i ln(1 + rate/1400).
\* Near-integers may round either way.
MelLn(n, rate) == TLCEval([b \in 0..(n + 2) |-> Ln7(700 * (n + 1) + b * rate) - Ln7(700 * (n + 1))])
MelBins(n, rate, nf) ==
  LET M == MelLn(n, rate)
      R == Ln7(1400 + rate) - Ln7(1400)
      w == 40 * (nf + 1)
      \* (nf+1) M[b] - i R, in two limbs
      diff(i, b) == LET h == (nf + 1) * (M[b] \div 1000) - i * (R \div 1000)
                        lo == (nf + 1) * (M[b] % 1000) - i * (R % 1000)
                    IN IF h > 1000000 THEN 1000000000 ELSE IF h < -1000000 THEN -1000000000 ELSE h * 1000 + lo
  IN TLCEval([i \in 0..(nf + 1) |->
        IF i = 0 THEN {0} ELSE {b \in 0..(n + 1) : diff(i, b) <= w /\ diff(i, b + 1) > -w}])
\* triangular energy in 10^-6 of magnitudes x (integers) with corner bins a, b, c
TriEnergy(x, a, b, c) ==
  IF a = b \/ b = c THEN 0
  ELSE LET at(k) == IF k < Len(x) THEN x[k + 1] ELSE 0
       IN FoldLeft(LAMBDA s, k : s + (((k - a) * M6) \div (b - a)) * at(k), 0, [q \in 1..(b - a) |-> a + q - 1])
          + FoldLeft(LAMBDA s, k : s + (((c - k) * M6) \div (c - b)) * at(k), 0, [q \in 1..(c - b) |-> b + q - 1])
MelSet(x, B, m) == {TriEnergy(x, a, b, c) : a \in B[m - 1], b \in B[m], c \in B[m + 1]}

\* ------------------------------------------------------------- decibels
\* 20 log10(p/q) in 10^-6 dB for positive integers below 2^30 (20/ln 10 = 8.68589)
Db(p, q) == Mul6(Ln7(p) - Ln7(q), 868589)
=============================================================================
