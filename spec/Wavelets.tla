------------------------------ MODULE Wavelets ------------------------------
(* Two-channel orthonormal filter banks with whole-sample reflection.       *)
(* Sequences hold values in units of 10^-6; filters in units of 10^-7.      *)
EXTENDS LnFix, FiniteSetsExt
Low(w) ==
  CASE w = "db2" -> <<4829629, 8365163, 2241439, -1294095>>
    [] w = "db4" -> <<-105974, 328830, 308414, -1870348, -279838, 6308808, 7148466, 2303778>>
    [] w = "sym4" -> <<-757657, -296355, 4976187, 8037388, 2978578, -992195, -126040, 322231>>
    [] w = "coif1" -> <<-156557, -727326, 3848648, 8525720, 3378977, -727326>>
\* the mirror filter; its overall sign is a convention
MirrorSign(w) == IF w = "db2" THEN 1 ELSE -1
High(w) == LET h == Low(w)  n == Len(h)
           IN [k \in 1..n |-> MirrorSign(w) * (IF k % 2 = 1 THEN 1 ELSE -1) * h[n + 1 - k]]
Taps(w) == IF w = "haar" THEN 2 ELSE Len(Low(w))
Filtered == {"db2", "db4", "sym4", "coif1"}
\* whole-sample reflection of index i into 0..n-1 (n >= 2)
Reflect(i, n) == LET m == i % (2 * (n - 1)) IN IF m < n THEN m ELSE 2 * (n - 1) - m

Half(v) == IF v >= 0 THEN (v + 1) \div 2 ELSE -((1 - v) \div 2)
R10(v) == IF v >= 0 THEN (v + 5) \div 10 ELSE -((5 - v) \div 10)
Conv(f, x, j) == LET n == Len(x) IN
  R10(FoldLeft(LAMBDA a, k : a + Mul6(x[Reflect(j + k - 1, n) + 1], f[k]), 0, [k \in 1..Len(f) |-> k]))
\* the same of a signal given by its law X(i), 0 <= i < n
ConvAt(f, X(_), n, j) ==
  R10(FoldLeft(LAMBDA a, k : a + Mul6(X(Reflect(j + k - 1, n)), f[k]), 0, [k \in 1..Len(f) |-> k]))
\* one level: <<approximation, detail>>
Fwd(w, x) ==
  LET n == Len(x) \div 2 IN
  IF w = "haar" THEN <<[i \in 1..n |-> Half(x[2 * i - 1] + x[2 * i])], [i \in 1..n |-> Half(x[2 * i - 1] - x[2 * i])]>>
  ELSE LET h == TLCEval(Low(w))  g == TLCEval(High(w))
       IN <<[i \in 1..n |-> Conv(h, x, 2 * (i - 1))], [i \in 1..n |-> Conv(g, x, 2 * (i - 1))]>>
\* synthesis: the transpose of analysis
Inv(w, a, d) ==
  LET n == Len(a)  len == 2 * n IN
  IF w = "haar" THEN [t \in 1..len |-> IF t % 2 = 1 THEN a[(t + 1) \div 2] + d[(t + 1) \div 2] ELSE a[t \div 2] - d[t \div 2]]
  ELSE LET L == Taps(w)  h == TLCEval(Low(w))  g == TLCEval(High(w))
           P == 2 * (len - 1)
           \* unreflected positions that fold onto t
           U(t) == {u \in {t + P * q : q \in 0..(L \div P + 1)} \cup {P * (q + 1) - t : q \in 0..(L \div P + 1)} : u <= len + L - 3}
           \* tap k of pair i lands on 2(i-1) + k - 1
           At(u) == FoldLeft(LAMBDA s, k : LET i == (u - k + 1) \div 2 + 1 IN
                        IF (u - k + 1) % 2 = 0 /\ i >= 1 /\ i <= n THEN s + Mul6(a[i], h[k]) + Mul6(d[i], g[k]) ELSE s, 0, [k \in 1..L |-> k])
       IN [t \in 1..len |-> R10(MapThenSumSet(At, U(t - 1)))]
\* element t (0-based) of the synthesis from coefficients given by their laws
InvAt(w, A(_), B(_), n, t) ==
  LET len == 2 * n IN
  IF w = "haar" THEN IF t % 2 = 0 THEN A(t \div 2) + B(t \div 2) ELSE A(t \div 2) - B(t \div 2)
  ELSE LET L == Taps(w)  h == TLCEval(Low(w))  g == TLCEval(High(w))
           P == 2 * (len - 1)
           U == {u \in {t + P * q : q \in 0..(L \div P + 1)} \cup {P * (q + 1) - t : q \in 0..(L \div P + 1)} : u <= len + L - 3}
           Sum(u) == FoldLeft(LAMBDA s, k : LET i == (u - k + 1) \div 2 IN
                        IF (u - k + 1) % 2 = 0 /\ i >= 0 /\ i < n THEN s + Mul6(A(i), h[k]) + Mul6(B(i), g[k]) ELSE s, 0, [k \in 1..L |-> k])
       IN R10(MapThenSumSet(Sum, U))
\* odd intermediate lengths are extended by repeating the last sample
Even(x) == IF Len(x) % 2 = 1 THEN Append(x, x[Len(x)]) ELSE x
\* <<coarsest approximation, details from the finest level on>>
MultiFwd(w, x, lv) ==
  FoldLeft(LAMBDA u, k : LET e == TLCEval(Even(u[1]))  s == TLCEval(Fwd(w, e)) IN <<s[1], Append(u[2], s[2])>>,
           <<x, <<>>>>, [k \in 1..lv |-> k])
MultiInv(w, a, ds) ==
  FoldLeft(LAMBDA u, k : LET d == ds[Len(ds) + 1 - k]  b == TLCEval(SubSeq(u, 1, Len(d))) IN TLCEval(Inv(w, b, d)),
           a, [k \in DOMAIN ds |-> k])
\* samples of a single-level round trip on 2n samples out of reach of the reflections (0-based)
Interior(w, len) == IF w = "haar" THEN 0..(len - 1) ELSE (Taps(w) - 2)..(len - Taps(w))
=============================================================================
