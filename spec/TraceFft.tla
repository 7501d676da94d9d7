------------------------------ MODULE TraceFft ------------------------------
(* Trace specification of the transform part of kofft.  The log (one JSON   *)
(* file per shard, environment variable TRACE) is a sequence of events, one *)
(* per public call, in program order, in sessions separated by "reset".     *)
(* State: the position in the log and the abstract state of the session,    *)
(* i.e. the length every named plan was made for.  By the contract nothing  *)
(* else an object went through may influence a result.                      *)
EXTENDS FftContract

D == JsonDeserialize(IOEnv.TRACE)
Ev == D.events
NoStd == D.nostd
Tab(n) == D.tabs[ToString(n)]

ASSUME \A k \in DOMAIN D.tabs : TableOk(TableN(D.tabs[k]), D.tabs[k]) /\ k = ToString(TableN(D.tabs[k]))

VARIABLES l, plans
vars == <<l, plans>>

PlanLen(e) == IF e.kind # "plan" THEN 0
              ELSE IF e.o \in DOMAIN plans THEN plans[e.o] ELSE e.pn

\* table needed by a call whose view has n points (never touched for n <= 1)
TabFor(n) == IF n <= 1 THEN <<>> ELSE Tab(n)
AllPos(n) == [q \in 1..n |-> q - 1]

\* Specification values of every listed signal, forward and inverse, computed once.
WantOf(s, dir) ==
  IF s.n <= 1 \/ (dir = 1 /\ ~s.f) \/ (dir = -1 /\ ~s.i) THEN <<>>
  ELSE LET T == Tab(s.n) IN TLCEval([q \in DOMAIN s.ks |-> Bin(s.x, s.n, s.ks[q], dir, T)])
WantF == TLCEval([i \in DOMAIN D.sigs |-> WantOf(D.sigs[i], 1)])
WantI == TLCEval([i \in DOMAIN D.sigs |-> WantOf(D.sigs[i], -1)])
Want(i, dir) == IF dir = 1 THEN WantF[i] ELSE WantI[i]
SigNorm == TLCEval([i \in DOMAIN D.sigs |-> Norms(D.sigs[i].x)])

\* e.sid names a listed signal (contiguous calls); otherwise e.x holds the input itself
WithSig(e) == IF Has(e, "sid") THEN [n |-> D.sigs[e.sid].n, x |-> D.sigs[e.sid].x] @@ e ELSE e

\* a forward transform followed by an inverse one (or the reverse), by any pair of entry points:
\* the original vector again
RoundTripCall(e) ==
  LET s == D.sigs[e.sid]  n == s.n  l1 == SigNorm[e.sid]
      want == [p \in {s.ks[q] : q \in DOMAIN s.ks} |-> RawAt(s, p)]
  IN /\ Dir(e.r) # Dir(e.r2)
     /\ e.ret = SizeRet(n, e.r, NoStd)
     /\ e.ret = "ok" =>
          /\ e.len = n /\ Len(e.yr) = Len(s.ks)
          /\ \A q \in DOMAIN s.ks :
               LET w == want[s.ks[q]]  g == Got(e, q) IN
               IF Wide(g) THEN ValOk2(g, <<w[1] * M6, 0, w[2] * M6, 0>>, 1, Tol64(l1, n))
               ELSE ValOk1(g, <<w[1] * M6, w[2] * M6>>, 1, Tol32(l1, n))

ComplexCall(e0) ==
  LET e   == WithSig(e0)
      sid == Has(e, "sid") /\ Pts(e) = e.n /\ OutStride(e) = 1 /\ InStride(e) = 1
      ks  == IF Has(e, "sid") THEN D.sigs[e.sid].ks ELSE AllPos(OutLen(e))
      v   == IF sid THEN e.x ELSE View(e)
      l1  == IF sid THEN SigNorm[e.sid] ELSE Norms(v)
      n   == Pts(e)
      d   == Dir(e.r)
      T   == TabFor(n)
      W(k) == Bin(v, n, k, d, T)
  IN /\ Answers(e.ret, Faults(e, PlanLen(e), NoStd))
     /\ InputOk(e)
     /\ e.ret = "ok" =>
          IF sid /\ n > 1
          THEN /\ e.len = n /\ Len(e.yr) = Len(ks) /\ Len(e.yi) = Len(ks)
               /\ \A q \in DOMAIN ks : ValueOk(Got(e, q), Want(e.sid, d)[q], n, d, l1)
          ELSE OutputOk(e, v, l1, ks, W)

\* ---------------------------------------------------------------- batches
\* every member transformed on its own; the first empty member stops the batch
MemberOk(yr, yi, sid, dir) ==
  LET s == D.sigs[sid]  n == s.n IN
  /\ Len(yr) = n /\ Len(yi) = n
  /\ IF n = 1 THEN ConstOk(<<yr[1], yi[1]>>, RawAt(s, 0)[1], RawAt(s, 0)[2])
     ELSE \A q \in DOMAIN s.ks :
            ValueOk(<<yr[s.ks[q] + 1], yi[s.ks[q] + 1]>>, Want(sid, dir)[q], n, dir, SigNorm[sid])
MemberSame(yr, yi, sid) ==
  LET s == D.sigs[sid] IN
  /\ Len(yr) = s.n
  /\ \A k \in 1..s.n : ConstOk(<<yr[k], yi[k]>>, RawAt(s, k - 1)[1], RawAt(s, k - 1)[2])
BatchCall(e) ==
  LET dir == IF e.r \in {"ibatch", "imulti"} THEN -1 ELSE 1
      N(i) == D.sigs[e.xs[i]].n
      bad == {i \in DOMAIN e.xs : SizeRet(N(i), "fft", NoStd) # "ok"}
      first == CHOOSE i \in bad : \A j \in bad : i <= j
  IN /\ e.ret = IF bad = {} THEN "ok" ELSE SizeRet(N(first), "fft", NoStd)
     /\ Len(e.yr) = Len(e.xs) /\ Len(e.yi) = Len(e.xs)
     \* members before an invalid one are transformed, members after it are untouched
     /\ \A i \in DOMAIN e.xs :
          IF bad = {} \/ i < first THEN MemberOk(e.yr[i], e.yi[i], e.xs[i], dir)
          ELSE MemberSame(e.yr[i], e.yi[i], e.xs[i])

\* ---------------------------------------------------------------- planner
\* e is entry q of a table that must hold exp(-2 pi i k / n)
RootOk(g, k, n, T) ==
  LET m == (k % n) + 1
  IN IF Wide(g) THEN ValOk2(g, <<T.ch[m], T.cl[m], -T.sh[m], -T.sl[m]>>, 1, 20 + n \div 4)
     ELSE ValOk1(g, <<T.c[m], -T.s[m]>>, 1, 2 + n \div 8)
PlannerCall(e) ==
  /\ e.ret = "ok"
  /\ CASE e.r = "tw" ->
            /\ e.len = e.n \div 2 /\ Len(e.yr) = e.len
            /\ \A k \in 1..e.len : RootOk(Got(e, k), k - 1, e.n, Tab(e.n))
       [] e.r = "strategy" ->
            e.strategy = IF IsPow2(e.n) /\ e.n > 1 THEN "SplitRadix" ELSE "Auto"
       [] e.r = "blue" ->
            LET n == e.n  T == Tab(2 * e.n)
            IN /\ e.len = n /\ Len(e.yr) = n
               \* the chirp exp(-i pi k^2 / n) is a 2n-th root of unity
               /\ \A k \in 0..(n - 1) : RootOk(Got(e, k + 1), (k * k) % (2 * n), 2 * n, T)
               \* the convolution length: the least power of two >= 2n - 1
               /\ IsPow2(e.blen) /\ e.blen >= 2 * n - 1 /\ (e.blen > 1 => e.blen \div 2 < 2 * n - 1)
               /\ Len(e.br) = e.blen
               \* spectrum of the symmetric conjugate chirp (all entries of short ones, a sample of long ones):
               \* b_0 + 2 sum_{j=1}^{n-1} b_j cos(2 pi j k / m)
               /\ LET m == e.blen
                      U == TabFor(m)
                      u == IF Has(e, "brl") THEN 1 ELSE 10   \* units of the logged spectrum
                      step == 1 + m \div 130
                      cs(j, k) == IF m <= 1 THEN M6 ELSE U.c[((j * k) % m) + 1]
                      sr(k) == FoldLeft(LAMBDA a, j : a + Mul6(T.c[((j * j) % (2 * n)) + 1], cs(j, k)),
                                        0, [j \in 1..(n - 1) |-> j])
                      si(k) == FoldLeft(LAMBDA a, j : a + Mul6(T.s[((j * j) % (2 * n)) + 1], cs(j, k)),
                                        0, [j \in 1..(n - 1) |-> j])
                  IN \A k \in {q \in 0..(m - 1) : q % step = n % step} :
                       /\ Abs(M6 + 2 * sr(k) - e.br[k + 1] * u) <= 60 + 6 * n
                       /\ Abs(2 * si(k) - e.bi[k + 1] * u) <= 60 + 6 * n

\* real planner tables: exp(-i pi k / m), k < m
RPlannerCall(e) ==
  /\ e.ret = "ok" /\ e.len = e.n /\ Len(e.yr) = e.n
  /\ \A k \in 1..e.n : RootOk(Got(e, k), k - 1, 2 * e.n, Tab(2 * e.n))

TwBufCall(e) ==
  /\ e.ret = "ok" /\ e.len = e.n \div 2 /\ Len(e.yr) = e.len
  /\ \A k \in 1..e.len : RootOk(Got(e, k), k - 1, e.n, Tab(e.n))
  /\ e.n >= 2 =>
       /\ Len(e.gr) = e.n
       /\ \A k \in 1..e.n : LET j == ((k - 1) % (e.n \div 2)) + 1
                            IN e.gr[k] = e.yr[j] /\ e.gi[k] = e.yi[j]

\* ------------------------------------------------------------------- n-D
\* x positions are row-major; e.dims = <<rows, cols>> or <<depth, rows, cols>>;
\* e.L is the least common multiple of the dimensions (checked below)
NdCall(e) ==
  LET two == e.r = "2"
      dp == IF two THEN 1 ELSE e.depth
      rw == e.rows
      cl == e.cols
      big == e.huge
      tot == IF big THEN -1 ELSE dp * rw * cl
      ret == IF tot # e.n THEN "MismatchedLengths"
             ELSE IF tot = 0 THEN "ok"
             ELSE IF two THEN IF e.scol # rw THEN "MismatchedLengths" ELSE "ok"
             ELSE IF e.stube # dp \/ e.srow # rw \/ e.scol # cl THEN "MismatchedLengths" ELSE "ok"
      Ln == e.L
      T == TabFor(Ln)
      l1 == Norms(e.x)
      \* large volumes are looked at in sampled places
      far == Has(e, "ks")
      At(w, u, v, g) ==
        LET Idx(t) == ((t[1] \div (rw * cl)) * w * (Ln \div dp)
                       + ((t[1] \div cl) % rw) * u * (Ln \div rw)
                       + (t[1] % cl) * v * (Ln \div cl)) % Ln
        IN IF Wide(g)
           THEN ValOk2(g, <<SumIRe(e.x, Idx, 1, T.ch, T.sh), SumIRe(e.x, Idx, 1, T.cl, T.sl),
                            SumIIm(e.x, Idx, 1, T.ch, T.sh), SumIIm(e.x, Idx, 1, T.cl, T.sl)>>,
                       1, Tol64(l1, tot))
           ELSE ValOk1(g, <<SumIRe(e.x, Idx, 1, T.c, T.s), SumIIm(e.x, Idx, 1, T.c, T.s)>>,
                       1, Tol32(l1, tot))
  IN /\ e.ret = ret
     /\ far => e.len = e.n
     /\ LET m == IF far THEN Len(e.ks) ELSE e.n IN Len(e.yr) = m /\ Len(e.yi) = m
     /\ IF far
        THEN /\ ret = "ok" /\ Ln % dp = 0 /\ Ln % rw = 0 /\ Ln % cl = 0
             /\ \A i \in 1..Len(e.ks) :
                  LET q == e.ks[i] IN At(q \div (rw * cl), (q \div cl) % rw, q % cl, Got(e, i))
        ELSE IF ret # "ok" \/ tot <= 1
        THEN \A q \in 1..e.n : ConstOk(Got(e, q), RawAt(e, q - 1)[1], RawAt(e, q - 1)[2])
        ELSE /\ Ln % dp = 0 /\ Ln % rw = 0 /\ Ln % cl = 0
             /\ \A w \in 0..(dp - 1), u \in 0..(rw - 1), v \in 0..(cl - 1) :
                  At(w, u, v, Got(e, w * rw * cl + u * cl + v + 1))

\* nested data: a sequence of rows (2-D) or of planes (3-D); values v stand for v - iv
FlattenCall(e) ==
  LET rows3 == IF e.r = "2" THEN <<e.data>> ELSE e.data
      d == Len(rows3)
      r == IF d = 0 THEN 0 ELSE Len(rows3[1])
      c == IF r = 0 THEN 0 ELSE Len(rows3[1][1])
      ok == \A i \in DOMAIN rows3 : Len(rows3[i]) = r /\ \A j \in DOMAIN rows3[i] : Len(rows3[i][j]) = c
      flat == FlattenSeq([i \in DOMAIN rows3 |-> FlattenSeq(rows3[i])])
  IN /\ e.ret = IF ok THEN "ok" ELSE "MismatchedLengths"
     /\ ok => /\ e.dims = IF e.r = "2" THEN <<r, c>> ELSE <<d, r, c>>
              /\ Len(e.yr) = Len(flat) /\ Len(e.yi) = Len(flat)
              /\ \A i \in DOMAIN flat : e.yr[i] = flat[i] /\ e.yi[i] = -flat[i]

\* ------------------------------------------------------------------ real
RfftFaults(n, ol, sl) ==
  Fault(n = 0, "EmptyInput") \cup Fault(n % 2 = 1, "InvalidValue")
  \cup Fault(ol # n \div 2 + 1 \/ sl < n \div 2, "MismatchedLengths")
StackFaults(n, m) ==
  Fault(n = 0, "EmptyInput") \cup Fault(m # n \div 2 + 1, "MismatchedLengths")
  \cup Fault(n > 0 /\ ~IsPow2(n), "NonPowerOfTwoNoStd")
\* Bins 0..n/2 of a real signal (signal record with ks = 0..n/2 or a selection); the first and the last are real.
RealFwd(e) ==
  LET s == D.sigs[e.sid]  h == e.n \div 2
  IN /\ s.n = e.n /\ Len(e.yr) = h + 1 /\ Len(e.yi) = h + 1
     /\ \A q \in DOMAIN s.ks :
          s.ks[q] <= h => ValueOk(Got(e, s.ks[q] + 1), WantF[e.sid][q], e.n, 1, SigNorm[e.sid])
     /\ e.stk \/ (e.yi[1] = 0 /\ e.yi[h + 1] = 0)
\* The real signal whose half spectrum was given: the signal record holds the full Hermitian
\* spectrum, whose right half must mirror the left one (checked), and e.n samples are returned.
Hermitian(s) ==
  LET at(p) == RawAt(s, p) IN
  \A i \in DOMAIN s.x : LET t == s.x[i]  m == (s.n - t[1]) % s.n
                        IN at(m) = <<t[2], -t[3]>>
HermitianSigs == {i \in DOMAIN D.sigs : Hermitian(D.sigs[i])}
RealInv(e) ==
  LET s == D.sigs[e.sid]  n == e.n
  IN /\ s.n = n /\ e.sid \in HermitianSigs /\ Len(e.y) = n
     /\ \A q \in DOMAIN s.ks :
          LET w == WantI[e.sid][q]  p == s.ks[q] + 1 IN
          IF n > FarN THEN Near(w[1] \div n, e.y[p], 2 + (IF Has(e, "yl") THEN 20 + 8 * SigNorm[e.sid].a
                                                         ELSE SigNorm[e.sid].a * (20 + n \div 50)) \div n)
          ELSE IF Has(e, "yl")
          THEN LET a == Div2(w[1], w[2], n) IN Near2(a[1], a[2], e.y[p], e.yl[p], 2 + Tol64(SigNorm[e.sid], n) \div n)
          ELSE Near(Narrow(w)[1] \div n, e.y[p], 2 + Tol32(SigNorm[e.sid], n) \div n)
RfftCall(e) ==
  LET inv == e.inv
      f == IF e.stk THEN StackFaults(e.n, IF inv THEN e.il ELSE e.m)
           ELSE RfftFaults(e.n, IF inv THEN e.il ELSE e.ol, e.sl)
      f2 == f \cup Fault(NoStd /\ e.n > 1 /\ ~IsPow2(e.n \div 2), "NonPowerOfTwoNoStd")
  IN /\ Answers(e.ret, f2)
     /\ (e.ret \in ArgErr /\ ~e.stk) => e.same
     /\ e.ret = "ok" => IF e.stk /\ e.n = 1
                        THEN TRUE
                        ELSE IF inv THEN RealInv(e) ELSE RealFwd(e)

\* --------------------------------------------------------------- layouts
\* a long input is given by its law: element p is <<(ga*p mod gm) - gm/2, (gb*p mod gm) - gm/2>>
LawAt(e, p) == <<((e.ga * (p % e.gm)) % e.gm) - e.gm \div 2, ((e.gb * (p % e.gm)) % e.gm) - e.gm \div 2>>
LayoutCall(e) ==
  /\ e.ret = "ok" /\ Len(e.re) = e.n /\ Len(e.im) = e.n /\ Len(e.yr) = e.n /\ Len(e.yi) = e.n
  /\ e.wide => Len(e.lo) = 4 * e.n /\ \A q \in DOMAIN e.lo : e.lo[q] = 12
  /\ \A q \in 1..e.n : LET w == IF e.gm > 0 THEN LawAt(e, q - 1) ELSE RawAt(e, q - 1) IN
       e.re[q] = w[1] * M6 /\ e.im[q] = w[2] * M6 /\ e.yr[q] = w[1] * M6 /\ e.yi[q] = w[2] * M6

\* ----------------------------------------------------------- concurrency
\* several threads transform while another keeps changing the parallel
\* settings: each result is that of the same call made alone
StormCall(e) ==
  /\ e.ret = "ok" /\ Len(e.rets) = Len(e.xs)
  /\ \A i \in DOMAIN e.xs :
       /\ e.rets[i] = SizeRet(D.sigs[e.xs[i]].n, "fft", FALSE)
       /\ e.rets[i] = "ok" => MemberOk(e.yr[i], e.yi[i], e.xs[i], Dir(e.rs[i]))
SetCall(e) == e.ret = "ok"

\* The switching threshold: the one in the environment when it parses to a positive number,
\* otherwise a product of the other settings (the work per core is also measured, so only a
\* lower bound is fixed).  Runtime overrides do not change the base value.
ThresholdCall(e) ==
  LET g(k, d) == IF e.env[k].set THEN e.env[k].v ELSE d
      core == Max2(g("cache_bytes", 32768) \div 8, Max2(Max2(g("per_core_work", 4096), 4096), g("block_size", 1024)))
      thr  == g("threads", 1)
  IN /\ e.ret = "ok"
     /\ IF g("threshold", 0) > 0 THEN e.v = g("threshold", 0)
        ELSE e.v >= (IF core >= 2000000000 \div thr THEN 2000000000 ELSE core * thr)

\* Is the logged call one the contract allows?  (A value, not an action: TLC would unroll the
\* quantifiers of an action recursively.)
Ok(e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "c" -> IF Has(e, "r2") THEN RoundTripCall(e) ELSE ComplexCall(e)
    [] e.op = "batch" -> BatchCall(e)
    [] e.op = "planner" -> PlannerCall(e)
    [] e.op = "rplanner" -> RPlannerCall(e)
    [] e.op = "twbuf" -> TwBufCall(e)
    [] e.op = "nd" -> NdCall(e)
    [] e.op = "flatten" -> FlattenCall(e)
    [] e.op \in {"rfft", "rstack"} -> RfftCall(e)
    [] e.op = "layout" -> LayoutCall(e)
    [] e.op = "storm" -> StormCall(e)
    [] e.op = "set" -> SetCall(e)
    [] e.op = "threshold" -> ThresholdCall(e)

Init == l = 1 /\ plans = <<>>
\* the only thing a call leaves behind: the length a named plan was made for
After(e) ==
  IF e.op = "reset" THEN <<>>
  ELSE IF e.op = "c" /\ (e.kind = "plan" \/ (Has(e, "kind2") /\ e.kind2 = "plan"))
          /\ e.o # "fresh" /\ e.o \notin DOMAIN plans
  THEN (e.o :> e.pn) @@ plans
  ELSE plans
Next == /\ l <= Len(Ev) /\ l' = l + 1
        /\ Ok(Ev[l]) = TRUE
        /\ plans' = After(Ev[l])
Spec == Init /\ [][Next]_vars

TraceAccepted == IF TLCGet("stats").diameter - 1 = Len(Ev) THEN TRUE
                 ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
