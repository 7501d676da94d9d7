------------------------------ MODULE TraceDsp ------------------------------
(* Trace specification of the real-signal part of kofft: cosine, sine and  *)
(* Hartley transforms, planner tables, wavelets, windows, single-bin and    *)
(* chirp-z detectors, analytic signal, cepstra, mel bank and MFCC, and the  *)
(* spectrogram pipeline.  Every call is a function of its arguments; the    *)
(* only state a session carries is the last pixel map per picture height.   *)
EXTENDS Trig, Windows, Wavelets, Cepstral, Colours

D == JsonDeserialize(IOEnv.TRACE)
Ev == D.events
NoStd == D.nostd
Tab(n) == D.tabs[ToString(n)]
ASSUME \A k \in DOMAIN D.tabs : TableOk(TableN(D.tabs[k]), D.tabs[k]) /\ k = ToString(TableN(D.tabs[k]))
IsPow2(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072}

VARIABLES l, pix
vars == <<l, pix>>

Sparse(x) == SelectSeq([i \in 1..Len(x) |-> <<i - 1, x[i], 0>>], LAMBDA t : t[2] # 0)
MaxAbs(x) == FoldLeft(LAMBDA a, v : Max2(a, Abs(v)), 0, x)
AllNear(w, g, t) == Len(w) = Len(g) /\ \A i \in DOMAIN w : Near(w[i], g[i], t)

\* ------------------------------------------------------- trigonometric
\* signals carry the names of the transforms applied to them
TW == TLCEval([i \in DOMAIN D.sigs |->
        LET s == D.sigs[i]  ks == {s.t[j] : j \in DOMAIN s.t} IN
        TLCEval([r \in ks |-> IF s.n = 0 THEN <<>>
                              ELSE TLCEval([k \in 1..s.n |-> TrigAt(r, s.x, s.n, k - 1, Tab(TabLen(r, s.n)))])])])
SL1 == TLCEval([i \in DOMAIN D.sigs |-> L1(D.sigs[i].x)])
TrigOk(sid, r, y) ==
  LET n == D.sigs[sid].n  w == TW[sid][Base(r)]  t == TolTrig(SL1[sid], n)
  IN Len(y) = n /\ \A k \in 1..n : Near(w[k], y[k], t)
Nines(y) == \A k \in DOMAIN y : y[k] = 9 * M6
StackTrigRet(r, n) == IF n = 0 \/ n % 2 = 1 \/ ~IsPow2(n) THEN "NonPowerOfTwoNoStd" ELSE "ok"
PlannedFaults(e, q) ==
  LET n == D.sigs[e.xs[q]].n IN
  Fault(n # e.pl \/ e.ols[q] # n, "MismatchedLengths")
  \cup Fault(n = 0, "EmptyInput") \cup Fault(NoStd /\ n > 0 /\ ~IsPow2(n), "NonPowerOfTwoNoStd")
TrigCall(e) ==
  CASE e.form = "plain" -> e.ret = "ok" /\ TrigOk(e.sid, e.r, e.y)
    [] e.form = "stack" ->
         /\ e.ret = StackTrigRet(e.r, D.sigs[e.sid].n)
         /\ IF e.ret = "ok" THEN TrigOk(e.sid, e.r, e.y) ELSE Nines(e.y)
    [] e.form = "planned" ->
         /\ e.ret = "ok" /\ Len(e.rets) = Len(e.xs) /\ Len(e.ys) = Len(e.xs)
         /\ \A q \in DOMAIN e.xs :
              /\ Answers(e.rets[q], PlannedFaults(e, q))
              /\ IF e.rets[q] = "ok" THEN TrigOk(e.xs[q], "dct2", e.ys[q]) ELSE Nines(e.ys[q]) /\ Len(e.ys[q]) = e.ols[q]
    [] e.form \in {"batch", "multi"} ->
         /\ e.ret = "ok" /\ Len(e.ys) = Len(e.xs)
         /\ \A q \in DOMAIN e.xs : TrigOk(e.xs[q], e.r, e.ys[q])
DstPlannerCall(e) ==
  /\ e.ret = "ok" /\ e.len = e.n /\ Len(e.y) = e.n
  /\ e.r # "scratch" /\ e.n > 0 =>
       LET T == Tab(4 * e.n)
           m(i) == (IF e.r = "dst3" THEN 2 * (i - 1) ELSE 2 * i - 1) + 1
       IN \A i \in 1..e.n : IF Has(e, "yl") THEN Near2(T.sh[m(i)], T.sl[m(i)], e.y[i], e.yl[i], 60)
                            ELSE Near(T.s[m(i)], e.y[i], 3)

\* -------------------------------------------------------------- windows
WinWant(e, i) ==
  LET n == e.n  T(m) == Tab(m) IN
  CASE e.r \in {"hann", "hann_s"} -> HannAt(n, i, T)
    [] e.r \in {"hamming", "hamming_s"} -> HammingAt(n, i, T)
    [] e.r \in {"blackman", "blackman_s"} -> BlackmanAt(n, i, T)
    [] e.r = "bartlett" -> BartlettAt(n, i)
    [] e.r = "bohman" -> BohmanAt(n, i, T)
    [] e.r = "nuttall" -> NuttallAt(n, i, T)
\* windows of more than 2^17 points, answered at places ks and at their mirror images, with the extremes of all values
WindowFar(e) ==
  LET n == e.n  T(m) == Tab(m) IN
  /\ e.ret = "ok" /\ e.len = n
  /\ e.lo >= -4 /\ e.hi <= M6 + 4 /\ e.hi >= M6 - 16
  /\ \A q \in DOMAIN e.ks :
       LET i == e.ks[q] IN
       /\ e.r \in Periodic \/ Abs(e.y[q] - e.ym[q]) <= 20
       /\ e.r \in Periodic /\ i > 0 => Abs(e.y[q] - e.yp[q]) <= 20
       /\ CASE e.r = "kaiser" -> \A w \in DOMAIN e.ks : Edge(n, i) < Edge(n, e.ks[w]) => e.y[q] <= e.y[w] + 8
            [] e.r = "tukey" -> \E v \in TukeySet(n, i, e.b, e.bd, T) : Near(v, e.y[q], 12 + (4 * e.bd) \div Max2(1, e.b))
            [] OTHER -> Near(WinWant(e, i), e.y[q], 12)
WindowCall(e) ==
  IF Has(e, "ks") THEN WindowFar(e) ELSE
  LET n == e.n  T(m) == Tab(m) IN
  /\ e.ret = "ok" /\ Len(e.y) = n
  /\ \A i \in 1..n : e.y[i] >= -4 /\ e.y[i] <= M6 + 4
  /\ IF e.r \in Periodic THEN \A i \in 2..n : Abs(e.y[i] - e.y[n + 2 - i]) <= 6
     ELSE \A i \in 1..n : Abs(e.y[i] - e.y[n + 1 - i]) <= 6 + n \div 50
  /\ IF n = 1 /\ e.r \notin Periodic THEN e.y[1] = M6
     ELSE \A i \in 1..n :
       CASE e.r = "kaiser" ->
              /\ ((e.b <= 20 * e.bd /\ n <= 1100) \/ i % (1 + n \div 12) = 0) => KaiserOk(n, i - 1, e.b, e.bd, e.y[i])
              \* rises towards the middle, where it is 1
              /\ 2 * i <= n => e.y[i] <= e.y[i + 1] + (IF n <= 1100 THEN 2 ELSE 4)
              /\ 2 * i = n + 1 => Abs(e.y[i] - M6) <= 2
         [] e.r = "tukey" -> \E v \in TukeySet(n, i - 1, e.b, e.bd, T) : Near(v, e.y[i], 6 + (4 * e.bd) \div Max2(1, e.b))
         [] OTHER -> Near(WinWant(e, i - 1), e.y[i], 5)

\* ------------------------------------------------------------- wavelets
S6(x) == TLCEval([i \in DOMAIN x |-> x[i] * M6])
WTol(mx, lv) == 6 + lv * (4 + 2 * mx)
\* signals of many thousand samples are given by a law and answered at sampled places ks
FarLaw(g, i) == ((((g * (i % 1009)) % 1009) % 19) - 9) * M6
WaveletFar(e) ==
  LET X(i) == FarLaw(e.ga, i)  Y(i) == FarLaw(e.gb, i)
      m == e.n \div 2  t == WTol(9, 2)
      h == TLCEval(IF e.k = "haar" THEN <<>> ELSE Low(e.k))  g == TLCEval(IF e.k = "haar" THEN <<>> ELSE High(e.k))
  IN /\ e.ret = "ok"
     /\ CASE e.r = "ffwd" ->
               /\ e.lens = <<m, m>>
               /\ \A q \in DOMAIN e.ks : LET i == e.ks[q] IN
                    IF e.k = "haar" THEN Near(Half(X(2 * i) + X(2 * i + 1)), e.a[q], t) /\ Near(Half(X(2 * i) - X(2 * i + 1)), e.d[q], t)
                    ELSE Near(ConvAt(h, X, e.n, 2 * i), e.a[q], t) /\ Near(ConvAt(g, X, e.n, 2 * i), e.d[q], t)
          [] e.r = "finv" ->
               /\ e.lens = <<2 * m>>
               /\ \A q \in DOMAIN e.ks : Near(InvAt(e.k, X, Y, m, e.ks[q]), e.y[q], t)
          \* one level there and back, away from the borders
          [] e.r = "frt" ->
               /\ e.lens = <<2 * m>>
               /\ \A q \in DOMAIN e.ks : e.ks[q] \in Interior(e.k, 2 * m) => Near(X(e.ks[q]), e.y[q], t)
          \* any number of Haar levels there and back (an odd length gains one sample)
          [] e.r = "fmrt" ->
               /\ e.lens = <<2 * ((e.n + 1) \div 2)>>
               /\ \A q \in DOMAIN e.ks : e.ks[q] < e.n => Near(X(e.ks[q]), e.y[q], 4 * t)
WaveletCall(e) ==
  IF Has(e, "ks") THEN WaveletFar(e) ELSE
  LET mxOf(x) == MaxAbs(x)
      L2(xs, ys, t) == Len(xs) = Len(ys) /\ \A q \in DOMAIN xs : AllNear(xs[q], ys[q], t)
  IN /\ e.ret = "ok"
     /\ CASE e.r \in {"fwd", "sfwd"} ->
               LET f == TLCEval(Fwd(e.k, S6(e.x)))  t == WTol(mxOf(e.x), 1)
               IN AllNear(f[1], e.a, t) /\ AllNear(f[2], e.d, t)
          [] e.r \in {"inv", "sinv"} ->
               AllNear(TLCEval(Inv(e.k, S6(e.xa), S6(e.xd))), e.y, WTol(Max2(mxOf(e.xa), mxOf(e.xd)), 1))
          [] e.r = "rt" ->
               LET len == 2 * (Len(e.x) \div 2)  f == TLCEval(Fwd(e.k, S6(e.x)))  t == WTol(mxOf(e.x), 2) IN
               /\ Len(e.y) = len
               /\ \A i \in Interior(e.k, len) : Near(e.x[i + 1] * M6, e.y[i + 1], t)
               /\ AllNear(TLCEval(Inv(e.k, f[1], f[2])), e.y, t)
          [] e.r = "mfwd" ->
               LET m == TLCEval(MultiFwd(e.k, S6(e.x), e.lv))  t == WTol(mxOf(e.x), 2 * e.lv)
               IN AllNear(m[1], e.a, t) /\ L2(m[2], e.ds, t)
          [] e.r = "mrt" ->
               LET m == TLCEval(MultiFwd(e.k, S6(e.x), e.lv))  t == WTol(mxOf(e.x), 4 * e.lv)
                   n == Len(e.x) IN
               /\ AllNear(TLCEval(MultiInv(e.k, m[1], m[2])), e.y, t)
               /\ e.k = "haar" => /\ Len(e.y) = (IF e.lv > 0 THEN 2 * ((n + 1) \div 2) ELSE n)
                                  /\ \A i \in 1..n : Near(e.x[i] * M6, e.y[i], t)
          [] e.r = "minv" ->
               AllNear(TLCEval(MultiInv(e.k, S6(e.xa), [q \in DOMAIN e.xds |-> S6(e.xds[q])])), e.y,
                       WTol(Max2(mxOf(e.xa), FoldLeft(LAMBDA a, x : Max2(a, mxOf(x)), 0, e.xds)), 3 * Len(e.xds)))
          [] e.r = "bfwd" ->
               /\ Len(e.as) = Len(e.xs) /\ Len(e.dss) = Len(e.xs)
               /\ \A q \in DOMAIN e.xs : LET f == TLCEval(Fwd(e.k, S6(e.xs[q])))  t == WTol(mxOf(e.xs[q]), 1)
                                         IN AllNear(f[1], e.as[q], t) /\ AllNear(f[2], e.dss[q], t)
          [] e.r = "binv" ->
               /\ Len(e.ys) = Len(e.xas)
               /\ \A q \in DOMAIN e.xas : AllNear(TLCEval(Inv(e.k, S6(e.xas[q]), S6(e.xds[q]))), e.ys[q],
                                                  WTol(Max2(mxOf(e.xas[q]), mxOf(e.xds[q])), 1))
          [] e.r = "mbfwd" ->
               LET ms == TLCEval([q \in DOMAIN e.xs |-> MultiFwd(e.k, S6(e.xs[q]), e.lv)])
                   t(q) == WTol(mxOf(e.xs[q]), 2 * e.lv) IN
               /\ Len(e.as) = Len(e.xs) /\ Len(e.dcat) = Len(e.xs) * e.lv
               /\ \A q \in DOMAIN e.xs :
                    /\ AllNear(ms[q][1], e.as[q], t(q))
                    /\ \A v \in 1..e.lv : AllNear(ms[q][2][v], e.dcat[(q - 1) * e.lv + v], t(q))
          [] e.r = "mbrt" ->
               /\ Len(e.ys) = Len(e.xs)
               /\ \A q \in DOMAIN e.xs :
                    LET m == TLCEval(MultiFwd(e.k, S6(e.xs[q]), e.lv))
                    IN AllNear(TLCEval(MultiInv(e.k, m[1], m[2])), e.ys[q], WTol(mxOf(e.xs[q]), 4 * e.lv))

\* ---------------------------------------------------- detectors, spectra
R1000(v) == IF v >= 0 THEN (v + 500) \div 1000 ELSE -((500 - v) \div 1000)
\* is g (10^-6 units) the modulus of the complex number (re, im), to within tol (10^-3 units)?
ModOk(g, re, im, tol) ==
  LET a == R1000(re)  b == R1000(im)  p == a * a + b * b  q == R1000(g)
  IN g >= 0 /\ Sane(g) /\ q <= 46000 /\ Abs(q * q - p) <= 2 * Max2(q, 1) * tol + tol * tol

GoertzelOk(e, k0) ==
  LET n == Len(e.x)
      v == Sparse(e.x)  l1 == L1(v)
      k == k0 % n
      T == Tab(n)
      A == l1 * (IF T.s[k + 1] = 0 THEN n ELSE Min2(n, 1 + M6 \div Abs(T.s[k + 1])))
      re == SumRe(v, n, k, 1, T.c, T.s)  im == SumIm(v, n, k, 1, T.c, T.s)
      a == R1000(re)  b == R1000(im)  g == R1000(e.y[1])
      \* the recurrence works on sums of size A; its rounding enters the squared modulus
      \* (the sums of an integer signal at the real bins are exact)
      \* and the angle of the bin is rounded, which over n samples turns into a shift of the modulus
      dm == Min2(8000, (n * A) \div 1000)
      tol == IF T.s[k + 1] = 0 THEN 0 ELSE ((n * A) \div 100) * Max2(1, A \div 30) + 4000 + 2 * Min2(g, 46000) * dm + dm * dm
  IN g <= 46000 /\ Abs(g * g - (a * a + b * b)) <= tol + 4 * Max2(g, 1)
\* the bin of a frequency is floor(freq * n / rate), in single precision: the products of
\* large numbers are rounded, so that a quotient next to an integer may fall on either side
GoertzelBins(e, n) ==
  LET f == e.freq * n  k == f \div e.rate  r == f % e.rate  amb == 2 * (Abs(f) \div 8388608)
  IN {k} \cup (IF amb > 0 /\ r <= amb THEN {k - 1} ELSE {}) \cup (IF amb > 0 /\ e.rate - r <= amb THEN {k + 1} ELSE {})
GoertzelCall(e) ==
  LET n == Len(e.x)
  IN /\ Answers(e.ret, Fault(n = 0, "EmptyInput") \cup Fault(e.rate <= 0, "InvalidValue"))
     /\ e.ret = "ok" => /\ Len(e.y) = 1 /\ Sane(e.y[1]) /\ e.y[1] >= 0
                        /\ \E k \in GoertzelBins(e, n) : GoertzelOk(e, k)

\* chirp-z: contour a^-1 and ratio w both unit roots (indices mod N), both Gaussian integers,
\* or both in units of 10^-6 (spirals)
CMul6(a, b) == TLCEval(<<Mul6(a[1], b[1]) - Mul6(a[2], b[2]), Mul6(a[1], b[2]) + Mul6(a[2], b[1])>>)
\* powers 0..k of z
CPows(z, k) == FoldLeft(LAMBDA s, i : Append(s, CMul6(s[i], z)), <<<<M6, 0>>>>, Seq1(k))
SpiralOk(e) ==
  LET n == Len(e.x)  l1 == L1(Sparse(e.x))
      W == TLCEval(CPows(<<e.wr, e.wi>>, n * e.m))
      A == TLCEval(CPows(<<e.ir, e.ii>>, n))
      grow == 1 + FoldLeft(LAMBDA s, z : Max2(s, (Abs(z[1]) + Abs(z[2])) \div M6), 0, W \o A)
      term(k, j) == CMul6(W[j * k + 1], A[j + 1])
      sum(k, q) == FoldLeft(LAMBDA s, j : s + e.x[j] * term(k, j - 1)[q], 0, Seq1(n))
      tol == 10 + l1 * grow * grow * (6 + 2 * n * e.m)
  IN \A k \in 0..(e.m - 1) : Near(sum(k, 1), e.yr[k + 1], tol) /\ Near(sum(k, 2), e.yi[k + 1], tol)
RECURSIVE CPow(_, _, _)
CPow(re, im, k) == IF k = 0 THEN <<1, 0>> ELSE LET p == CPow(re, im, k - 1) IN <<p[1] * re - p[2] * im, p[1] * im + p[2] * re>>
CztCall(e) ==
  LET n == Len(e.x)  l1 == L1(Sparse(e.x)) IN
  /\ e.ret = "ok" /\ Len(e.yr) = e.m /\ Len(e.yi) = e.m
  /\ IF Has(e, "spiral") THEN SpiralOk(e) ELSE
     \A k \in 0..(e.m - 1) :
       IF e.unit
       THEN LET T == Tab(e.N)
                Idx(t) == (t[1] * (k * e.wj - e.aj)) % e.N
                v == Sparse(e.x)
                re == FoldLeft(LAMBDA s, t : s + t[2] * T.c[Idx(t) + 1], 0, v)
                im == FoldLeft(LAMBDA s, t : s + t[2] * T.s[Idx(t) + 1], 0, v)
                tol == 4 + l1 * (2 + (n * e.m) \div 3)
            IN Near(re, e.yr[k + 1], tol) /\ Near(im, e.yi[k + 1], tol)
       ELSE LET term(j) == LET a == CPow(e.ir, e.ii, j)  w == CPow(e.wr, e.wi, j * k)
                           IN <<a[1] * w[1] - a[2] * w[2], a[1] * w[2] + a[2] * w[1]>>
                re == FoldLeft(LAMBDA s, j : s + e.x[j + 1] * term(j)[1], 0, [j \in 1..n |-> j - 1])
                im == FoldLeft(LAMBDA s, j : s + e.x[j + 1] * term(j)[2], 0, [j \in 1..n |-> j - 1])
            IN Near(re * M6, e.yr[k + 1], 20) /\ Near(im * M6, e.yi[k + 1], 20)

\* analytic signal: kernel (2/n) sum_{0<k<n/2} sin(2 pi k d/n)
HilbertCall(e) ==
  LET n == Len(e.x)  v == Sparse(e.x)  l1 == L1(v)
      T == Tab(n)
      ks == [k \in 1..(Max2(1, n \div 2) - 1) |-> k]
      far == Has(e, "ks")
      \* a sum of up to n/2 sines of 10^6, divided by n with quotient and remainder kept apart
      Kern(d) == LET u == FoldLeft(LAMBDA s, k : LET z == s[2] + 2 * T.s[((k * d) % n) + 1] IN <<s[1] + z \div n, z % n>>, <<0, 0>>, ks)
                 IN u[1]
      H == TLCEval([d \in (IF far THEN {((e.ks[t] - z[1]) % n) : t \in 1..Len(e.ks), z \in {v[i] : i \in 1..Len(v)}} ELSE 0..(n - 1)) |-> Kern(d)])
      im(t) == FoldLeft(LAMBDA s, z : s + z[2] * H[(t - z[1]) % n], 0, v)
      tol == 4 + l1 * (3 + n \div 16)
  IN /\ e.ret = (IF n = 0 THEN "EmptyInput" ELSE IF ~IsPow2(n) THEN "NonPowerOfTwoNoStd" ELSE "ok")
     /\ e.len = (IF e.ret = "ok" THEN n ELSE 0)
     /\ (e.ret = "ok" /\ far) =>
          /\ Len(e.yr) = Len(e.ks) /\ Len(e.yi) = Len(e.ks)
          /\ \A i \in 1..Len(e.ks) : Near(e.x[e.ks[i] + 1] * M6, e.yr[i], tol) /\ Near(im(e.ks[i]), e.yi[i], tol)
     /\ (e.ret = "ok" /\ ~far) =>
                        /\ Len(e.yr) = n /\ Len(e.yi) = n
                        /\ \A t \in 1..n : Near(e.x[t] * M6, e.yr[t], tol) /\ Near(im(t - 1), e.yi[t], tol)

Lg2(e) == IF Has(e, "lg") THEN e.lg * 693147 ELSE 0
CepstrumCall(e) ==
  LET n == Len(e.x)  v == Sparse(e.x)  l1 == L1(v)
      T == Tab(n)
      X == TLCEval([k \in 0..(n - 1) |-> <<SumRe(v, n, k, 1, T.c, T.s), SumIm(v, n, k, 1, T.c, T.s)>>])
      big(k) == Max2(Abs(X[k][1]), Abs(X[k][2]))
      \* bins that vanish leave their logarithm to rounding: only finiteness is required then
      ok == \A k \in 0..(n - 1) : big(k) >= 20000
      Lg == TLCEval([k \in 0..(n - 1) |-> LnMod(X[k][1], X[k][2])])
      \* mean, with quotient and remainder kept apart
      want(q) == LET u == FoldLeft(LAMBDA s, k : LET z == Mul6(Lg[k], T.c[((k * q) % n) + 1]) IN <<s[1] + z \div n, s[2] + (z % n)>>,
                                   <<0, 0>>, [k \in 1..n |-> k - 1])
                 IN u[1] + u[2] \div n
      \* relative error of each bin
      tol == 80 + FoldLeft(LAMBDA s, k : s + (Tol32(Norms(v), n) * 1000) \div (big(k) \div 1000), 0, [k \in 1..n |-> k - 1]) \div n
  IN /\ e.ret = (IF n = 0 THEN "EmptyInput" ELSE IF ~IsPow2(n) THEN "NonPowerOfTwoNoStd" ELSE "ok")
     /\ e.ret = "ok" => /\ Len(e.y) = n
                        /\ \A t \in 1..n : Sane(e.y[t])
                        \* data scaled by 2^lg: every logarithm shifts, which shows in the first coefficient only
                        /\ ok => \A t \in (IF Has(e, "ks") THEN {e.ks[i] : i \in DOMAIN e.ks} ELSE 1..n) : Near(want(t - 1) + (IF t = 1 THEN Lg2(e) ELSE 0), e.y[t], tol)
                        /\ v = <<>> => \A t \in 2..n : Abs(e.y[t]) <= 20

\* ------------------------------------------------------------ mel, MFCC
MelTol(x) == 6 + 2 * FoldLeft(LAMBDA a, w : a + Abs(w), 0, x)
MelCall(e) ==
  LET B == MelBins(Len(e.x), e.rate, e.nf) IN
  /\ e.ret = "ok" /\ Len(e.y) = e.nf
  /\ \A m \in 1..e.nf : \E w \in MelSet(e.x, B, m) : Near(w, e.y[m], MelTol(e.x))
\* DCT-II of the log energies; an energy of 0 counts as 10^-12
MfccOk(x, rate, nf, nc, y, sh) ==
  LET B == MelBins(Len(x), rate, nf)
      clear == \A m \in 1..nf : Cardinality(MelSet(x, B, m)) = 1
      E == TLCEval([m \in 1..nf |-> CHOOSE w \in MelSet(x, B, m) : TRUE])
      Lg == TLCEval([m \in 1..nf |-> IF E[m] <= 0 THEN -27631021 ELSE Ln6(E[m]) - 13815511 + sh])
      d == TLCEval([m \in 1..nf |-> IF E[m] <= 0 THEN 10 ELSE (MelTol(x) * 1000) \div (1 + E[m] \div 1000) + 3])
      T == Tab(4 * nf)
      want(k) == FoldLeft(LAMBDA s, m : s + Mul6(Lg[m], T.c[(((2 * m - 1) * k) % (4 * nf)) + 1]), 0, [m \in 1..nf |-> m])
      tol == 50 + FoldLeft(LAMBDA s, m : s + d[m] + Abs(Lg[m]) \div 200000, 0, [m \in 1..nf |-> m]) * (2 + nf \div 4)
  IN /\ Len(y) = nc
     /\ \A k \in 1..nc : Sane(y[k])
     /\ clear => \A k \in 1..nc : Near(want(k - 1), y[k], tol)
MfccCall(e) ==
  LET bad == e.nc > e.nf IN
  IF Has(e, "xs")
  THEN /\ e.ret = (IF e.xs # <<>> /\ bad THEN "InvalidValue" ELSE "ok")
       /\ e.ret = "ok" => /\ Len(e.ys) = Len(e.xs)
                          /\ \A q \in DOMAIN e.xs : MfccOk(e.xs[q], e.rate, e.nf, e.nc, e.ys[q], Lg2(e))
  ELSE /\ e.ret = (IF bad THEN "InvalidValue" ELSE "ok")
       /\ e.ret = "ok" => MfccOk(e.x, e.rate, e.nf, e.nc, e.y, Lg2(e))

\* ---------------------------------------------------------- spectrogram
CeilDiv(a, b) == (a + b - 1) \div b
MagsCall(e) ==
  LET n == Len(e.x)  wl == e.wl
      faults == Fault(e.hop = 0, "InvalidHopSize") \cup Fault(n > 0 /\ wl = 0, "EmptyInput")
      nf == CeilDiv(n, e.hop)
      h == wl \div 2
      T == Tab(wl)
      \* frame f under a Hann window: X(k)/2 - X(k-1)/4 - X(k+1)/4 of the plain frame
      Fr(f) == Sparse([i \in 1..wl |-> IF f * e.hop + i <= n THEN e.x[f * e.hop + i] ELSE 0])
      Ok(f) == LET v == Fr(f)
                   X == TLCEval([k \in 0..(wl - 1) |-> <<SumRe(v, wl, k, 1, T.c, T.s), SumIm(v, wl, k, 1, T.c, T.s)>>])
                   at(k, q) == X[k % wl][q]
                   W(k, q) == (2 * at(k, q) - at(k - 1, q) - at(k + 1, q)) \div 4
               IN /\ Len(e.y[f + 1]) = h
                  /\ \A k \in 0..(h - 1) : ModOk(e.y[f + 1][k + 1], W(k, 1), W(k, 2), 3)
      flat == FlattenSeq(e.y)
  IN /\ Answers(e.ret, faults)
     /\ faults = {} => /\ Len(e.y) = nf
                      /\ \A f \in 0..(nf - 1) : Ok(f)
                      /\ Len(e.mx) = 1 /\ e.mx[1] = MaxAbs(flat)
DbOk(m, mx, floor, g) ==
  LET f == floor * M6
      v == IF m <= 0 \/ mx <= 0 THEN f ELSE Db(m, mx)
      t == 20 + Abs(v) \div 2000000
  IN IF v <= f THEN Abs(g - f) <= t ELSE Near(v, g, t) /\ (m = mx => g = 0)
DbCall(e) ==
  /\ e.ret = "ok" /\ Len(e.y) = Len(e.x)
  /\ \A i \in DOMAIN e.x : DbOk(e.x[i], e.mx, e.floor, e.y[i]) /\ e.y[i] >= e.floor * M6
  /\ \A i, j \in DOMAIN e.x : e.x[i] <= e.x[j] => e.y[i] <= e.y[j]
ScaleCall(e) ==
  /\ e.ret = "ok" /\ Len(e.y) = Len(e.x)
  /\ \A i \in DOMAIN e.x :
       LET v == IF e.x[i] = 0 THEN 0 ELSE M6 + Db(e.x[i], e.mx) \div e.dr
           w == Min2(M6, Max2(0, v))
       IN Near(w, e.y[i], 20) /\ e.y[i] >= 0 /\ e.y[i] <= M6
  /\ \A i, j \in DOMAIN e.x : e.x[i] <= e.x[j] => e.y[i] <= e.y[j]
U16(c8, c16) == \A q \in 1..3 : c16[q] = 257 * c8[q]
ColorCall(e) ==
  LET m == NameOf(e.lc) IN
  /\ e.ret = "ok" /\ Len(e.u8) = Len(e.x) /\ Len(e.u16) = Len(e.x)
  /\ \A i \in DOMAIN e.x :
       LET k == Min2(e.den, Max2(0, e.x[i]))  c == e.u8[i] IN
       /\ InRange(c) /\ U16(c, e.u16[i])
       /\ IF m \in Linear THEN ColourOk(m, k, e.den, c)
          ELSE (k = 0 => c = Ends(m)[1]) /\ (k = e.den => c = Ends(m)[2])
  \* values outside [0, 1] take the end colours
  /\ \A i, j \in DOMAIN e.x : (e.x[i] <= 0 /\ e.x[j] <= 0) \/ (e.x[i] >= e.den /\ e.x[j] >= e.den) => e.u8[i] = e.u8[j]
\* the colour of a magnitude is the colour of its decibel value on the scale floor..0
CmagCall(e) ==
  LET m == NameOf(e.lc) IN
  /\ e.ret = "ok" /\ Len(e.u8) = Len(e.x)
  /\ \A i \in DOMAIN e.x :
       /\ InRange(e.u8[i]) /\ U16(e.u8[i], e.u16[i]) /\ e.u8[i] = e.t8[i]
       /\ m = "Gray" =>
            LET f == -e.floor
                v == IF e.x[i] <= 0 \/ e.mx <= 0 THEN 0 ELSE Max2(0, Min2(M6, M6 + Db(e.x[i], e.mx) \div f))
                g == (v * 255 + 500000) \div M6
            IN Abs(e.u8[i][1] - g) <= 1
ParseCall(e) == e.ret = "ok" /\ e.cmap = NameOf(e.lc)
\* pixel of a bin: floor(mb ln(bin+1) / ln(mb+1)); near-integers may round either way
PixOk(b, mb, p) ==
  IF mb = 0 THEN p = 0
  ELSE LET a == Ln7(b + 1)  z == Ln7(mb + 1)
           w == IF mb > 512 THEN 35 * mb ELSE 20 * mb
           \* u*v <= x*y + w for u, x < 2^13 and v, y < 2^27, in two limbs
           Le(u, v, x, y) == LET h == u * (v \div 4096) - x * (y \div 4096)
                                 lo == u * (v % 4096) - x * (y % 4096)
                             IN IF h > 100000 THEN FALSE ELSE IF h < -100000 THEN TRUE ELSE h * 4096 + lo <= w
       \* p <= mb*a/z <= p + 1
       IN p >= 0 /\ p <= mb /\ Le(p, z, mb, a) /\ Le(mb, a, p + 1, z)
BinCall(e) ==
  /\ e.ret = "ok" /\ Len(e.y) = e.mb + 1
  /\ e.y[1] = 0 /\ e.y[e.mb + 1] = e.mb
  /\ \A b \in 0..e.mb : PixOk(b, e.mb, e.y[b + 1])
  /\ \A b \in 1..e.mb : e.y[b] <= e.y[b + 1]
LogBinsCall(e) ==
  LET P == pix[e.mb]
      In(p) == {b \in 1..Len(e.x) : P[b] = p}
      S(p) == FoldLeft(LAMBDA a, b : IF P[b] = p THEN a + e.x[b] ELSE a, 0, [b \in 1..Len(e.x) |-> b])
  IN /\ e.ret = "ok" /\ Len(e.y) = e.mb + 1
     /\ \A p \in 0..e.mb :
          LET c == Cardinality(In(p)) IN
          IF c = 0 THEN e.y[p + 1] = 0 ELSE Near((S(p) * M6) \div c, e.y[p + 1], 3 + MaxAbs(e.x))
SpectroCall(e) ==
  CASE e.r = "mags" -> MagsCall(e) [] e.r = "db" -> DbCall(e) [] e.r = "scale" -> ScaleCall(e)
    [] e.r = "color" -> ColorCall(e) [] e.r = "cmag" -> CmagCall(e) [] e.r = "parse" -> ParseCall(e)
    [] e.r = "bin" -> BinCall(e) [] e.r = "logbins" -> LogBinsCall(e)

Ok(e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "trig" -> TrigCall(e)
    [] e.op = "dstplanner" -> DstPlannerCall(e)
    [] e.op = "window" -> WindowCall(e)
    [] e.op = "wavelet" -> WaveletCall(e)
    [] e.op = "goertzel" -> GoertzelCall(e)
    [] e.op = "czt" -> CztCall(e)
    [] e.op = "hilbert" -> HilbertCall(e)
    [] e.op = "cepstrum" -> CepstrumCall(e)
    [] e.op = "mel" -> MelCall(e)
    [] e.op = "mfcc" -> MfccCall(e)
    [] e.op = "spectro" -> SpectroCall(e)
    [] e.op = "set" -> e.ret = "ok"
After(e) ==
  CASE e.op = "reset" -> <<>>
    [] e.op = "spectro" /\ e.r = "bin" -> (e.mb :> e.y) @@ pix
    [] OTHER -> pix

Init == l = 1 /\ pix = <<>>
Next == /\ l <= Len(Ev) /\ l' = l + 1
        /\ Ok(Ev[l]) = TRUE
        /\ pix' = After(Ev[l])
Spec == Init /\ [][Next]_vars
TraceAccepted == IF TLCGet("stats").diameter - 1 = Len(Ev) THEN TRUE
                 ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
