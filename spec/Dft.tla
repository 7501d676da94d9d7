-------------------------------- MODULE Dft --------------------------------
(* The defining sums of the discrete Fourier transform over sparse signals. *)
(* A signal of length n is a sequence of triples <<position, re, im>>       *)
(* (0-based positions, zero elsewhere).  A table record has fields          *)
(*   c, s   : round(10^6 cos/sin(2 pi m / n)), m = 0..n-1                   *)
(*   ch, cl, sh, sl : the same angle as two limbs (floor, next six digits)  *)
EXTENDS Num

\* ------------------------------------------------------------------ tables
\* A table is accepted only if it is recognisably the n-th roots of unity:
\* starts at 1, unit modulus, conjugate symmetric, quadrant values exact, and each entry is the
\* previous one rotated by entry 1 (checked at 10^-4 resolution).
R4(v) == IF v >= 0 THEN (v + 50) \div 100 ELSE -((50 - v) \div 100)
NarrowTableOk(n, t) ==
  /\ Len(t.c) = n /\ Len(t.s) = n
  /\ t.c[1] = M6 /\ t.s[1] = 0
  /\ n % 2 = 0 => t.c[n \div 2 + 1] = -M6 /\ t.s[n \div 2 + 1] = 0
  /\ n % 4 = 0 => t.c[n \div 4 + 1] = 0 /\ t.s[n \div 4 + 1] = M6
  /\ \A m \in 1..n :
       LET c0 == R4(t.c[m])  s0 == R4(t.s[m])
           k  == IF m = n THEN 1 ELSE m + 1
           j  == IF n = 1 THEN 1 ELSE 2
           c1 == R4(t.c[j])  s1 == R4(t.s[j])
       IN /\ Abs(c0 * c0 + s0 * s0 - 100000000) <= 15000
          /\ Abs(c0 * c1 - s0 * s1 - R4(t.c[k]) * 10000) <= 25000
          /\ Abs(s0 * c1 + c0 * s1 - R4(t.s[k]) * 10000) <= 25000
          /\ m > 1 => t.c[m] = t.c[n + 2 - m] /\ t.s[m] = -t.s[n + 2 - m]
          /\ "ch" \in DOMAIN t =>
               /\ t.cl[m] >= 0 /\ t.cl[m] < M6 /\ t.sl[m] >= 0 /\ t.sl[m] < M6
               /\ Abs(t.ch[m] - t.c[m]) <= 1 /\ Abs(t.sh[m] - t.s[m]) <= 1

\* Very long transforms (n > FarN) use a compact table: the coarse angles 2 pi q a/n (cc, cs; a = 0..n/q)
\* and the fine ones 2 pi b/n (fc, fs; b < q), for q = t.far; root m is the product of two entries.
FarN == 131072
FarRoot(t, m) ==
  LET a == (m \div t.far) + 1  b == (m % t.far) + 1
  IN <<Mul6(t.cc[a], t.fc[b]) - Mul6(t.cs[a], t.fs[b]), Mul6(t.cs[a], t.fc[b]) + Mul6(t.cc[a], t.fs[b])>>
FarTableOk(n, t) ==
  LET q == t.far  last == n \div q
      Turn(c, s, cd, sd) == <<Mul6(c, cd) - Mul6(s, sd), Mul6(s, cd) + Mul6(c, sd)>>
      Is(v, c, s) == Abs(v[1] - c) <= 6 /\ Abs(v[2] - s) <= 6
  IN /\ n > FarN /\ n <= 1048576 /\ q > 1 /\ n \div q > 8
     /\ Len(t.cc) = last + 1 /\ Len(t.cs) = last + 1 /\ Len(t.fc) = q /\ Len(t.fs) = q
     /\ t.cc[1] = M6 /\ t.cs[1] = 0 /\ t.fc[1] = M6 /\ t.fs[1] = 0 /\ t.fs[2] > 0 /\ t.cs[2] > 0
     /\ \A b \in 1..(q - 1) : Is(Turn(t.fc[b], t.fs[b], t.fc[2], t.fs[2]), t.fc[b + 1], t.fs[b + 1])
     /\ \A a \in 1..last : Is(Turn(t.cc[a], t.cs[a], t.cc[2], t.cs[2]), t.cc[a + 1], t.cs[a + 1])
     /\ Is(Turn(t.fc[q], t.fs[q], t.fc[2], t.fs[2]), t.cc[2], t.cs[2])
     \* the rest of the turn closes it
     /\ Is(Turn(t.cc[last + 1], t.cs[last + 1], t.fc[n - last * q + 1], t.fs[n - last * q + 1]), M6, 0)
TableOk(n, t) == IF "far" \in DOMAIN t THEN FarTableOk(n, t) ELSE NarrowTableOk(n, t)
TableN(t) == IF "far" \in DOMAIN t THEN t.n ELSE Len(t.c)

\* (p * k) mod n for p, k < n <= 2^20
MulMod(p, k, n) == ((((p \div 1024) * k) % n) * 1024 + (p % 1024) * k) % n
FarBin(x, n, k, dir, t) ==
  FoldLeft(LAMBDA a, v : LET r == FarRoot(t, MulMod(v[1], k, n))
                         IN <<a[1] + v[2] * r[1] + dir * (v[3] * r[2]), a[2] + v[3] * r[1] - dir * (v[2] * r[2])>>,
           <<0, 0>>, x)

\* ------------------------------------------------------------------- sums
\* dir = 1: sum x_j e^{-i 2 pi jk/n};  dir = -1: the conjugate kernel
SumRe(x, n, k, dir, C, S) ==
  FoldLeft(LAMBDA a, t : LET m == ((t[1] * k) % n) + 1
                         IN a + t[2] * C[m] + dir * (t[3] * S[m]), 0, x)
SumIm(x, n, k, dir, C, S) ==
  FoldLeft(LAMBDA a, t : LET m == ((t[1] * k) % n) + 1
                         IN a + t[3] * C[m] - dir * (t[2] * S[m]), 0, x)
L1(x) == FoldLeft(LAMBDA a, t : a + Abs(t[2]) + Abs(t[3]), 0, x)
\* both norms of a signal: a, the 1-norm; b, at least the 2-norm
Norms(x) == [a |-> L1(x), b |-> ISqrt(FoldLeft(LAMBDA a, t : a + t[2] * t[2] + t[3] * t[3], 0, x)) + 1]
NoX(x) == SelectSeq(x, LAMBDA t : t[1] >= 0)

\* Tolerances: rounding of the tables plus the floating-point error, which for
\* these algorithms grows like n * eps * norm of the input (the twiddle tables
\* are made by a recurrence; a length that is no power of two takes three
\* transforms of up to 4n points).
PowerOf2(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072}
Tol32(m, n) == IF PowerOf2(n) THEN 3 + m.a * (2 + n \div 8) ELSE 3 + m.a * 2 + m.b * n
Tol64(m, n) == 20 + m.a * (60 + n \div 4)


\* sums with an explicit table index per term (multi-dimensional transforms)
SumIRe(x, Idx(_), dir, C, S) ==
  FoldLeft(LAMBDA a, t : LET m == Idx(t) + 1 IN a + t[2] * C[m] + dir * (t[3] * S[m]), 0, x)
SumIIm(x, Idx(_), dir, C, S) ==
  FoldLeft(LAMBDA a, t : LET m == Idx(t) + 1 IN a + t[3] * C[m] - dir * (t[2] * S[m]), 0, x)

\* ------------------------------------------------------------- signals
\* A trace file lists the signals its calls use.  A signal record has
\*   n  : length            x  : sparse contents (sequence of <<pos, re, im>>)
\*   ks : positions at which outputs are examined (ascending)
\* The specification's value of bin ks[q] is computed once per signal:
\* narrow <<re, im>> or, when T carries limbs, <<reh, rel, imh, iml>> (lo limb not normalised).
Bin(x, n, k, dir, T) ==
  IF "far" \in DOMAIN T THEN FarBin(x, n, k, dir, T)
  ELSE IF "ch" \in DOMAIN T
  THEN <<SumRe(x, n, k, dir, T.ch, T.sh), SumRe(x, n, k, dir, T.cl, T.sl),
         SumIm(x, n, k, dir, T.ch, T.sh), SumIm(x, n, k, dir, T.cl, T.sl)>>
  ELSE <<SumRe(x, n, k, dir, T.c, T.s), SumIm(x, n, k, dir, T.c, T.s)>>
Narrow(w) == IF Len(w) = 2 THEN w
             ELSE <<w[1] + ((w[2] + 500000) \div M6), w[3] + ((w[4] + 500000) \div M6)>>

\* ------------------------------------------------------ logged values
\* A logged complex value: <<re, im>> (one limb) or <<re, im, relo, imlo>>
Got(e, q) == IF Has(e, "yrl") THEN <<e.yr[q], e.yi[q], e.yrl[q], e.yil[q]>>
             ELSE <<e.yr[q], e.yi[q]>>
Wide(g) == Len(g) = 4

\* does g equal w / d within tolerance (w as returned by Bin)?
ValOk2(g, w, d, t) ==
  IF d = 1 THEN Near2(w[1], w[2], g[1], g[3], t) /\ Near2(w[3], w[4], g[2], g[4], t)
  ELSE LET a == Div2(w[1], w[2], d)  b == Div2(w[3], w[4], d)
       IN Near2(a[1], a[2], g[1], g[3], 2 + t \div d) /\ Near2(b[1], b[2], g[2], g[4], 2 + t \div d)
ValOk1(g, v, d, t) ==
  LET w == Narrow(v) IN
  IF d = 1 THEN Near(w[1], g[1], t) /\ Near(w[2], g[2], t)
  ELSE Near(w[1] \div d, g[1], 2 + t \div d) /\ Near(w[2] \div d, g[2], 2 + t \div d)

\* Is g the value w of a length-n transform (dir = -1: inverse, divided by n)?
ValueOk(g, w, n, dir, l1) ==
  LET d == IF dir = 1 THEN 1 ELSE n
  IN IF n > FarN THEN ValOk1(g, w, d, IF Wide(g) THEN 20 + 8 * l1.a ELSE 3 + l1.a * (20 + n \div 50))
     ELSE IF Wide(g) THEN ValOk2(g, w, d, Tol64(l1, n)) ELSE ValOk1(g, w, d, Tol32(l1, n))

\* is g exactly the integers (re, im)?
ConstOk(g, re, im) ==
  /\ g[1] = re * M6 /\ g[2] = im * M6
  /\ Wide(g) => g[3] = 0 /\ g[4] = 0
=============================================================================
