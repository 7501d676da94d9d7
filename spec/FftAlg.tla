------------------------------- MODULE FftAlg -------------------------------
(* The transform algorithms of the library, pass by pass, over the exact    *)
(* field of Gf.tla.  A behaviour takes one algorithm, length and unit       *)
(* vector (1 or i at position j) through its passes; `Correct` says the     *)
(* final buffer is the transform by definition, `Stage` what the buffer     *)
(* holds between Stockham passes.  Variants named "...bad" are the designs  *)
(* that were found (and repaired) in the library or are easily slipped      *)
(* into; a separate configuration demands that TLC refutes each of them.    *)
EXTENDS Gf
CONSTANTS Algs, Lens
VARIABLES alg, n, j, u, pc, len, a, aux
vars == <<alg, n, j, u, pc, len, a, aux>>

IsPow2(k) == k \in {1, 2, 4, 8, 16, 32, 64, 128, 256}
IsPow4(k) == k \in {1, 4, 16, 64, 256}
NextPow2(k) == CHOOSE m \in {1, 2, 4, 8, 16, 32, 64, 128, 256} : m >= k /\ (m = 1 \/ m \div 2 < k)
Fits(al, k) ==
  CASE al \in {"stockham", "radix2", "istockham", "ptable"} -> IsPow2(k) /\ Order % k = 0
    [] al \in {"radix4", "radix4bad"} -> IsPow4(k) /\ Order % k = 0
    [] al \in {"bluestein", "bluesteinbad"} -> k > 1 /\ Order % (2 * k) = 0 /\ Order % NextPow2(2 * k - 1) = 0
    [] al \in {"rfft", "irfft", "rfftbad"} -> k % 2 = 0 /\ Order % k = 0
    [] al \in {"hilbert", "hilbertbad", "hartley"} -> Order % k = 0
    [] OTHER -> FALSE
Real(al) == al \in {"rfft", "rfftbad", "hilbert", "hilbertbad", "hartley"}

\* i of the field as a power of the root table: W(4, 1) = -i  (Order % 4 = 0)
Init == /\ alg \in Algs
        /\ n \in {k \in Lens : Fits(alg, k)}
        /\ j \in 0..(n - 1)
        /\ u \in (IF Real(alg) THEN {One} ELSE {One, MulI(One)})
        /\ a = Unit(n, j, u)
        /\ pc = "start" /\ len = 1 /\ aux = <<>>
        \* half spectra only for the inverse real transform
        /\ alg = "irfft" => j <= n \div 2

\* ------------------------------------------------------------- permutations
\* the digit-reversal counter of the code: add one to the reversed digit string
Bits == <<64, 32, 16, 8, 4, 2, 1>>
\* state of the inner loop: <<j, bit>>, at most log2(m) steps
Bump(jj, m, base) ==
  LET step(s, q) == IF s[2] # 0 /\ (s[1] \div s[2]) % base = base - 1
                    THEN <<s[1] - (base - 1) * s[2], s[2] \div base>> ELSE s
      e == FoldLeft(step, <<jj, m \div base>>, Bits)
  IN e[1] + e[2]
Permute(x, m, base) ==
  LET step(s, i) == LET j1 == Bump(s[2], m, base)
                        y == s[1]
                    IN TLCEval(<<IF i < j1 THEN [y EXCEPT ![i] = y[j1], ![j1] = y[i]] ELSE y, j1>>)
  IN FoldLeft(step, <<x, 0>>, [i \in 1..(m - 1) |-> i])[1]
DigitReverse(x, m, base) == IF m = 1 THEN x ELSE Permute(x, m, base)

\* ------------------------------------------------------------------ passes
StockhamPass(x, m, n1) ==
  LET n2 == m \div (2 * n1)
      E(k, t) == x[2 * k * n2 + t]
      O(k, t) == Mul(x[2 * k * n2 + n2 + t], W(m, k * n2))
  IN [i \in 0..(m - 1) |->
        LET g == i \div n2  t == i % n2
        IN IF g < n1 THEN Add(E(g, t), O(g, t)) ELSE Sub(E(g - n1, t), O(g - n1, t))]
\* the twiddle table as the planner builds it: entry k is exp(-2 pi i k/n), k < n/2, by repeated multiplication
Table(m, k) == FoldLeft(LAMBDA cur, q : Append(cur, TLCEval(Mul(cur[Len(cur)], W(m, 1)))), <<One>>, [q \in 1..k |-> q])
Radix2Pass(x, m, l) ==      \* l = block length of this pass
  [i \in 0..(m - 1) |->
     LET b == (i \div l) * l  t == i % l  h == l \div 2
         tt == t % h
         v == Mul(x[b + tt + h], W(l, tt))
     IN IF t < h THEN Add(x[b + tt], v) ELSE Sub(x[b + tt], v)]
Butterfly4(a0, b0, c0, d0) ==
  LET t0 == Add(a0, c0) t1 == Sub(a0, c0) t2 == Add(b0, d0) t3 == Mul(Sub(b0, d0), W(4, 1))
  IN <<Add(t0, t2), Add(t1, t3), Sub(t0, t2), Sub(t1, t3)>>
Radix4Pass(x, m, l) ==
  [i \in 0..(m - 1) |->
     LET b == (i \div l) * l  q == l \div 4  t == i % l  tt == t % q
         y == Butterfly4(x[b + tt], Mul(x[b + tt + q], W(l, tt)), Mul(x[b + tt + 2 * q], W(l, 2 * tt)),
                         Mul(x[b + tt + 3 * q], W(l, 3 * tt)))
     IN y[1 + (t \div q)]]

Keep == UNCHANGED <<alg, n, j, u>>
Finish == pc' = "done"

\* Stockham: passes n1 = 1, 2, 4, ...; `len` is n1
Stockham == /\ alg = "stockham" /\ pc # "done" /\ Keep /\ UNCHANGED aux
            /\ IF len < n THEN a' = StockhamPass(a, n, len) /\ len' = 2 * len /\ pc' = "pass"
               ELSE Finish /\ UNCHANGED <<a, len>>
\* inverse by conjugation, Stockham, conjugation and scaling
IStockham ==
  /\ alg = "istockham" /\ Keep /\ UNCHANGED aux
  /\ CASE pc = "start" -> a' = [k \in DOMAIN a |-> Conj(a[k])] /\ pc' = "pass" /\ UNCHANGED len
       [] pc = "pass" /\ len < n -> a' = StockhamPass(a, n, len) /\ len' = 2 * len /\ UNCHANGED pc
       [] pc = "pass" /\ len = n -> a' = [k \in DOMAIN a |-> Sc(InvMod(n), Conj(a[k]))] /\ Finish /\ UNCHANGED len
       [] OTHER -> FALSE
\* in-place decimation in time (the stack transform)
Radix2 ==
  /\ alg = "radix2" /\ pc # "done" /\ Keep /\ UNCHANGED aux
  /\ CASE pc = "start" -> a' = DigitReverse(a, n, 2) /\ pc' = "pass" /\ len' = 2
       [] pc = "pass" /\ len <= n -> a' = Radix2Pass(a, n, len) /\ len' = 2 * len /\ UNCHANGED pc
       [] OTHER -> Finish /\ UNCHANGED <<a, len>>
Radix4 ==
  /\ alg \in {"radix4", "radix4bad"} /\ pc # "done" /\ Keep /\ UNCHANGED aux
  /\ CASE pc = "start" -> a' = DigitReverse(a, n, IF alg = "radix4" THEN 4 ELSE 2) /\ pc' = "pass" /\ len' = 4
       [] pc = "pass" /\ len <= n -> a' = Radix4Pass(a, n, len) /\ len' = 4 * len /\ UNCHANGED pc
       [] OTHER -> Finish /\ UNCHANGED <<a, len>>
\* the planner's twiddle table: checked once per length (j = 0)
PTable == /\ alg = "ptable" /\ pc # "done" /\ Keep /\ UNCHANGED <<a, len>>
          /\ aux' = Table(n, (n \div 2) - (IF n > 1 THEN 1 ELSE 0)) /\ Finish

\* ---------------------------------------------------------------- Bluestein
M == NextPow2(2 * n - 1)
\* exp(-i pi k^2/n); the defective variant reduces the phase modulo n
Chirp(k) == W(2 * n, IF alg = "bluesteinbad" THEN (k * k) % n ELSE (k * k) % (2 * n))
ChirpB == [i \in 0..(M - 1) |-> IF i < n THEN Conj(Chirp(i)) ELSE IF i > M - n THEN Conj(Chirp(M - i)) ELSE Zero]
Bluestein ==
  /\ alg \in {"bluestein", "bluesteinbad"} /\ pc # "done" /\ Keep
  /\ CASE pc = "start" -> /\ a' = [i \in 0..(M - 1) |-> IF i < n THEN Mul(a[i], Chirp(i)) ELSE Zero]
                          /\ aux' = Dft(ChirpB, M) /\ pc' = "fft" /\ len' = M
       [] pc = "fft" -> a' = Dft(a, M) /\ pc' = "mul" /\ UNCHANGED <<aux, len>>
       [] pc = "mul" -> a' = [i \in 0..(M - 1) |-> Conj(Mul(a[i], aux[i]))] /\ pc' = "fft2" /\ UNCHANGED <<aux, len>>
       [] pc = "fft2" -> a' = Dft(a, M) /\ pc' = "post" /\ UNCHANGED <<aux, len>>
       [] OTHER -> /\ a' = [i \in 0..(n - 1) |-> Mul(Sc(InvMod(M), Conj(a[i])), Chirp(i))]
                   /\ Finish /\ UNCHANGED <<aux, len>>

\* ------------------------------------------------------------ real transform
H == n \div 2
RFft ==
  /\ alg \in {"rfft", "rfftbad"} /\ pc # "done" /\ Keep /\ UNCHANGED aux
  /\ CASE pc = "start" -> a' = [i \in 0..(H - 1) |-> Add(a[2 * i], MulI(a[2 * i + 1]))] /\ pc' = "fft" /\ len' = H
       [] pc = "fft" -> a' = Dft(a, H) /\ pc' = "post" /\ UNCHANGED len
       [] OTHER -> LET re(z) == <<z[1], 0>>  im(z) == <<z[2], 0>>
                       post(k) == LET x == a[k]  y == Conj(a[H - k])
                                      s == Add(x, y)  d == Sub(x, y)
                                      t == Mul(W(n, IF alg = "rfft" THEN k ELSE 2 * k), d)
                                  IN Sc(HalfP, Add(s, <<t[2], (P - t[1]) % P>>))
                   IN /\ a' = [k \in 0..H |-> IF k = 0 THEN Add(re(a[0]), im(a[0]))
                                              ELSE IF k = H THEN Sub(re(a[0]), im(a[0])) ELSE post(k)]
                      /\ Finish /\ UNCHANGED len
\* the half spectrum with u at bin j (bins 0 and n/2 real) and its real signal
HalfSpec == [k \in 0..H |-> IF k = j THEN (IF j \in {0, H} THEN <<u[1], 0>> ELSE u) ELSE Zero]
FullSpec == [k \in 0..(n - 1) |-> IF k <= H THEN HalfSpec[k] ELSE Conj(HalfSpec[n - k])]
IRFft ==
  /\ alg = "irfft" /\ pc # "done" /\ Keep /\ UNCHANGED aux
  /\ CASE pc = "start" ->
            LET x == HalfSpec
                pre(k) == LET p == x[k]  q == Conj(x[H - k])
                              s == Add(p, q)  d == Sub(p, q)
                              t == Mul(Conj(W(n, k)), d)
                          IN Sc(HalfP, Sub(s, <<t[2], (P - t[1]) % P>>))
            IN /\ a' = [k \in 0..(H - 1) |-> IF k = 0 THEN <<((x[0][1] + x[H][1]) * HalfP) % P, ((x[0][1] + P - x[H][1]) * HalfP) % P>>
                                             ELSE pre(k)]
               /\ pc' = "ifft" /\ len' = H
       [] pc = "ifft" -> a' = IDft(a, H) /\ pc' = "unpack" /\ UNCHANGED len
       [] OTHER -> /\ a' = [i \in 0..(n - 1) |-> IF i % 2 = 0 THEN <<a[i \div 2][1], 0>> ELSE <<a[i \div 2][2], 0>>]
                   /\ Finish /\ UNCHANGED len

\* --------------------------------------------------------- analytic signal
Hilbert ==
  /\ alg \in {"hilbert", "hilbertbad"} /\ pc # "done" /\ Keep /\ UNCHANGED <<aux, len>>
  /\ CASE pc = "start" -> a' = Dft(a, n) /\ pc' = "mask"
       [] pc = "mask" -> LET top == IF alg = "hilbertbad" THEN n \div 2 ELSE (n + 1) \div 2
                             f(k) == IF k = 0 THEN 1 ELSE IF n % 2 = 0 /\ k = H THEN 1 ELSE IF k < top THEN 2 ELSE 0
                         IN a' = [k \in 0..(n - 1) |-> Sc(f(k), a[k])] /\ pc' = "ifft"
       [] OTHER -> a' = IDft(a, n) /\ Finish
Hartley ==
  /\ alg = "hartley" /\ pc # "done" /\ Keep /\ UNCHANGED <<aux, len>>
  /\ CASE pc = "start" -> a' = Dft(a, n) /\ pc' = "cas"
       [] OTHER -> a' = [k \in 0..(n - 1) |-> <<(a[k][1] + P - a[k][2]) % P, 0>>] /\ Finish

Next == Stockham \/ IStockham \/ Radix2 \/ Radix4 \/ PTable \/ Bluestein \/ RFft \/ IRFft \/ Hilbert \/ Hartley
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- decisions
Correct == pc = "done" =>
  CASE alg \in {"stockham", "radix2", "radix4", "radix4bad", "bluestein", "bluesteinbad"} ->
         a = DftUnit(n, j, u)
    [] alg = "istockham" -> a = IDftUnit(n, j, u)
    [] alg = "ptable" -> \A k \in 1..Len(aux) : aux[k] = W(n, k - 1)
    [] alg \in {"rfft", "rfftbad"} -> \A k \in 0..H : a[k] = Mul(u, W(n, j * k))
    [] alg = "irfft" -> a = IDft(FullSpec, n)
    \* real part is the signal, and the negative frequencies are gone
    [] alg \in {"hilbert", "hilbertbad"} ->
         /\ \A i \in 0..(n - 1) : a[i][1] = (IF i = j THEN 1 ELSE 0)
         /\ \A k \in 0..(n - 1) : 2 * k > n => (LET t(q) == Mul(a[q], W(n, q * k)) IN SumF(t, n)) = Zero
    [] alg = "hartley" -> \A k \in 0..(n - 1) : LET w == W(n, n - ((j * k) % n)) IN a[k] = <<(w[1] + w[2]) % P, 0>>
    [] OTHER -> FALSE
\* after the passes up to n1 the Stockham buffer holds n1-point transforms of the decimated signal
Stage == (alg = "stockham" /\ pc # "done") =>
  LET d == n \div len
  IN \A k \in 0..(len - 1), t \in 0..(d - 1) :
        a[k * d + t] = (IF j % d = t THEN Mul(u, W(len, (j \div d) * k)) ELSE Zero)
=============================================================================
