------------------------------ MODULE Windows ------------------------------
(* Window functions on n points in units of 10^-6.  T(m) is the table of    *)
(* m-th roots of unity.                                                     *)
EXTENDS LnFix, Dft
Periodic == {"hann", "hamming", "blackman", "hann_s", "hamming_s", "blackman_s"}
Cyc(T, m) == IF "far" \in DOMAIN T THEN FarRoot(T, m % T.n)[1] ELSE T.c[(m % Len(T.c)) + 1]
Sin(T, m) == IF "far" \in DOMAIN T THEN FarRoot(T, m % T.n)[2] ELSE T.s[(m % Len(T.s)) + 1]
HannAt(n, i, T(_)) == 500000 - Cyc(T(n), i) \div 2
HammingAt(n, i, T(_)) == 540000 - Mul6(460000, Cyc(T(n), i))
BlackmanAt(n, i, T(_)) == 420000 - Cyc(T(n), i) \div 2 + Mul6(80000, Cyc(T(n), 2 * i))
\* 10^6 p/q by long division (q < 2 * 10^7)
Ratio6(p, q) ==
  FoldLeft(LAMBDA a, k : LET t == a[2] * 100 IN <<a[1] * 100 + t \div q, t % q>>, <<p \div q, p % q>>, <<1, 2, 3>>)[1]
BartlettAt(n, i) == M6 - Ratio6(Abs(2 * i - (n - 1)), n - 1)
NuttallAt(n, i, T(_)) == LET U == T(n - 1) IN
  355768 - Mul6(487396, Cyc(U, i)) + Mul6(144232, Cyc(U, 2 * i)) - Mul6(12604, Cyc(U, 3 * i))
BohmanAt(n, i, T(_)) ==
  LET m == Abs(2 * i - (n - 1))  U == T(2 * (n - 1))
      c == Cyc(U, m)
  IN Mul6(c, Ratio6(n - 1 - m, n - 1)) + Mul6(318310, Sin(U, m))
\* Tukey, shape p/q in (0, 1]: the raised-cosine value of a sample in the taper
TaperAt(n, i, p, q, T(_)) ==
  LET N == 2 * p * (n - 1)  m == 2 * i * q - p * (n - 1)
  IN (M6 + Cyc(T(N), (m % N))) \div 2
\* position measured from the nearer end
Edge(n, i) == Min2(i, n - 1 - i)
TukeySet(n, i, p, q, T(_)) ==
  LET j == Edge(n, i) IN
  IF p <= 0 \/ n <= 1 THEN {M6}
  ELSE LET pp == Min2(p, q) IN      \* shape clamped to [0, 1]
       \* j < pp (n-1) / (2q): taper.  The last tapered sample may be rounded into the flat part.
       IF 2 * q * j >= pp * (n - 1) THEN {M6}
       ELSE IF 2 * q * (j + 1) > pp * (n - 1) THEN {M6, TaperAt(n, j, pp, q, T)}
       ELSE {TaperAt(n, j, pp, q, T)}
\* modified Bessel function I_0 = sum_k ((z/2)^k / k!)^2 by Horner's rule; y6 = (z/2)^2 in 10^-6, below 2 * 10^9.
\* Result <<m, e>> stands for m * 10^e in units of 10^-6.
RECURSIVE Down(_, _)
Down(m, e) == IF m > 20000000 THEN Down(m \div 10, e + 1) ELSE <<m, e>>
P10 == <<1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000>>
I0(y6) ==
  FoldLeft(LAMBDA a, k :
             LET q == y6 \div (k * k)  f == IF q > 100000000 THEN 2 ELSE 0
             IN Down(MulU(a[1], q \div P10[f + 1]) + M6 \div P10[Min2(a[2] + f, 9) + 1], a[2] + f),
           <<M6, 0>>, LET K == IF y6 > 100000000 THEN 170 ELSE 60 IN [k \in 1..K |-> K + 1 - k])
\* 10^6 b^2 a/q in two steps (a < q, b q < 2^31)
SqRatio6(b, a, q) ==
  LET t == b * a  u == b * (t % q)
      r0 == <<b * (t \div q) + u \div q, u % q>>
  IN FoldLeft(LAMBDA s, k : LET v == s[2] * 100 IN <<s[1] * 100 + v \div q, v % q>>, r0, <<1, 2, 3>>)[1]
\* g is the Kaiser value at i for shape b/bd (b/bd <= 80)
KaiserOk(n, i, b, bd, g) ==
  LET m == n - 1
      \* (beta/2)^2 (1 - r^2), r = (2i - m)/m
      y == SqRatio6(b, i * (m - i), bd * bd * m * m)
      y0 == Ratio6(b * b, 4 * bd * bd)
      den == I0(y0)  num == I0(y)
  IN Abs(MulU(Abs(g), den[1]) - num[1] \div P10[Min2(den[2] - num[2], 9) + 1]) <= den[1] \div (IF b <= 20 * bd THEN 40000 ELSE 15000) + 4
=============================================================================
