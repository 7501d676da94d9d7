----------------------------- MODULE TraceStft -----------------------------
(* Trace specification of short-time analysis and synthesis.               *)
(* A log entry is one public call.  State: position in the log, the        *)
(* analysis streams (job and position of the next frame) and the synthesis *)
(* streams (window, hop and the sequence of accepted frames, flushed?).    *)
(* Signals and windows are integer vectors (possibly scaled by powers of   *)
(* two by the harness), so frames are exact integer DFT sums and overlap-  *)
(* add sums are exact integers over the cosine table.                      *)
EXTENDS FftContract

D == JsonDeserialize(IOEnv.TRACE)
Ev == D.events
NoStd == D.nostd
Tab(n) == D.tabs[ToString(n)]
ASSUME \A k \in DOMAIN D.tabs : TableOk(Len(D.tabs[k].c), D.tabs[k]) /\ k = ToString(Len(D.tabs[k].c))

VARIABLES l, an, sy
vars == <<l, an, sy>>

CeilDiv(a, b) == (a + b - 1) \div b
At(x, p) == IF p < Len(x) THEN x[p + 1] ELSE 0

\* ------------------------------------------------------------ analysis
\* windowed samples from `start`, as a sparse signal; zero beyond the end
Windowed(x, w, start) ==
  LET S == [i \in 1..Len(w) |-> <<i - 1, At(x, start + i - 1) * w[i], 0>>]
  IN SelectSeq(S, LAMBDA t : t[2] # 0)
FrameWant(x, w, start) ==
  LET v == Windowed(x, w, start)  n == Len(w)
  IN [l1 |-> Norms(v), b |-> IF n = 1 THEN <<<<IF v = <<>> THEN 0 ELSE v[1][2] * M6, 0>>>>
                          ELSE [k \in 1..n |-> Bin(v, n, k - 1, 1, Tab(n))]]
\* analysis job j: frames 0 .. nf-1 of signal x under window w and hop
AnWant == TLCEval([j \in DOMAIN D.sigs |->
            IF D.sigs[j].kind = "an" /\ Len(D.sigs[j].w) > 0 /\ D.sigs[j].hop > 0
            THEN TLCEval([f \in 1..D.sigs[j].nf |-> FrameWant(D.sigs[j].x, D.sigs[j].w, (f - 1) * D.sigs[j].hop)])
            ELSE <<>>])
FrameOk(yr, yi, want) ==
  LET n == Len(want.b) IN
  /\ Len(yr) = n /\ Len(yi) = n
  /\ \A k \in 1..n : Near(want.b[k][1], yr[k], Tol32(want.l1, n)) /\ Near(want.b[k][2], yi[k], Tol32(want.l1, n))
WinRet(n) == SizeRet(n, "fft", NoStd)
WinFaults(n) == SizeFaults(n, "fft", NoStd)

StftCall(e) ==
  LET J == D.sigs[e.sid]
      n == Len(J.x)  wl == Len(J.w)
      req == CeilDiv(n, J.hop)
  IN /\ Answers(e.ret, IF J.hop = 0 THEN {"InvalidHopSize"}
                    ELSE Fault(e.nout < req, "MismatchedLengths")
                         \cup (IF e.nout = 0 THEN {} ELSE WinFaults(wl)))
     /\ Len(e.yr) = e.nout
     \* refused: nothing written
     /\ (J.hop = 0 \/ e.nout < req) =>
          \A f \in 1..e.nout : /\ Len(e.yr[f]) = e.fls[f] /\ Len(e.yi[f]) = e.fls[f]
                               /\ \A k \in 1..e.fls[f] : e.yr[f][k] = 5 * M6 /\ e.yi[f][k] = -3 * M6
     /\ e.ret = "ok" => \A f \in 1..e.nout : FrameOk(e.yr[f], e.yi[f], AnWant[e.sid][f])
Same53(e) == \A k \in 1..Len(e.yr) : e.yr[k] = 5 * M6 /\ e.yi[k] = -3 * M6
OneFrame(e) ==
  LET J == D.sigs[e.sid]  wl == Len(J.w)
  IN /\ Answers(e.ret, Fault(e.fl # wl, "MismatchedLengths") \cup WinFaults(wl))
     /\ Len(e.yr) = e.fl
     /\ e.fl # wl => Same53(e)
     /\ e.ret = "ok" => FrameOk(e.yr, e.yi, IF e.start % J.hop = 0 /\ e.start \div J.hop < J.nf
                                            THEN AnWant[e.sid][e.start \div J.hop + 1]
                                            ELSE FrameWant(J.x, J.w, e.start))

\* streaming analysis
SstNew(e) ==
  LET J == D.sigs[e.sid] IN
  /\ e.ret = IF J.hop = 0 THEN "InvalidHopSize" ELSE "ok"
SstNext(e) ==
  LET s == an[e.o]  J == D.sigs[s.sid]  wl == Len(J.w)
      n == Len(J.x)
      total == CeilDiv(n, J.hop)
  IN IF e.fl # wl THEN /\ Same53(e)
                       /\ \/ e.ret = "MismatchedLengths"
                          \/ s.f >= total /\ e.ret = "ok" /\ ~e.more
     ELSE IF s.f >= total THEN e.ret = "ok" /\ ~e.more
     ELSE /\ e.ret = WinRet(wl)
          /\ e.ret = "ok" => e.more /\ FrameOk(e.yr, e.yi, AnWant[s.sid][s.f + 1])

\* ----------------------------------------------------------- synthesis
\* Synthesis job: window w, hop, frames fr/fi.  SyY[j][f][i] = n * (real part of the inverse
\* transform of frame f at i), in units of 10^-6; SyL1[j][f] the 1-norm of the frame.
Sp(re, im) == SelectSeq([k \in 1..Len(re) |-> <<k - 1, re[k], im[k]>>], LAMBDA t : t[2] # 0 \/ t[3] # 0)
SyY == TLCEval([j \in DOMAIN D.sigs |->
         IF D.sigs[j].kind = "sy" /\ Len(D.sigs[j].w) > 0
         THEN LET J == D.sigs[j]  n == Len(J.w) IN
              TLCEval([f \in DOMAIN J.fr |->
                 IF Len(J.fr[f]) # n THEN <<>>
                 ELSE LET v == Sp(J.fr[f], J.fi[f]) IN
                      IF n = 1 THEN <<J.fr[f][1] * M6>>
                      ELSE [i \in 1..n |-> SumRe(v, n, i - 1, -1, Tab(n).c, Tab(n).s)]])
         ELSE <<>>])
SyL1 == TLCEval([j \in DOMAIN D.sigs |->
         IF D.sigs[j].kind = "sy" THEN [f \in DOMAIN D.sigs[j].fr |-> Norms(Sp(D.sigs[j].fr[f], D.sigs[j].fi[f]))]
         ELSE <<>>])
\* frames (1-based positions in the accepted sequence) that reach sample t
Reach(t, wl, hop, cnt) ==
  LET hi == Min2(cnt, t \div hop + 1)
      lo == IF t < wl THEN 1 ELSE (t - wl) \div hop + 2
  IN [i \in 1..(IF hi < lo THEN 0 ELSE hi - lo + 1) |-> lo + i - 1]
\* The synthesis sample at t after the frames seq (indices into the job's frames) were overlapped at
\* multiples of hop: sum w y / sum w^2, 0 where the denominator is 0
OlaOk(j, hop, seq, t, g) ==
  LET J == D.sigs[j]  w == J.w  n == Len(w)
      R == Reach(t, n, hop, Len(seq))
      num == FoldLeft(LAMBDA a, f : LET i == t - (f - 1) * hop + 1 IN a + w[i] * SyY[j][seq[f]][i], 0, R)
      den == FoldLeft(LAMBDA a, f : LET i == t - (f - 1) * hop + 1 IN a + w[i] * w[i], 0, R)
      tol == FoldLeft(LAMBDA a, f : LET i == t - (f - 1) * hop + 1 IN a + Abs(w[i]) * Tol32(SyL1[j][seq[f]], n), 0, R)
  IN IF den = 0 THEN g = 0 ELSE Near(num \div (n * den), g, 3 + tol \div (n * den))

FramesOk(J) == \A f \in DOMAIN J.fr : Len(J.fr[f]) = Len(J.w)
IstftCall(e) ==
  LET J == D.sigs[e.sid]
      bad == e.r = "istft" /\ e.sl # e.ol
      arg == Fault(J.hop = 0, "InvalidHopSize") \cup Fault(bad \/ ~FramesOk(J), "MismatchedLengths")
  IN /\ Answers(e.ret, arg \cup (IF J.fr = <<>> THEN {} ELSE WinFaults(Len(J.w))))
     /\ Len(e.y) = e.ol
     /\ arg # {} => \A t \in 1..e.ol : e.y[t] = e.pf * M6
     /\ e.ret = "ok" => \A t \in 1..e.ol : OlaOk(e.sid, J.hop, [f \in DOMAIN J.fr |-> f], t - 1, e.y[t])
InvFrame(e) ==
  LET J == D.sigs[e.sid]  w == J.w  n == Len(w)
      f == Fault(Len(J.fr[1]) # n, "MismatchedLengths") \cup WinFaults(n)
  IN /\ Answers(e.ret, f)
     /\ Len(e.y) = e.ol
     /\ \A t \in 1..e.ol :
          LET i == t - e.start IN
          IF f # {} \/ i < 1 \/ i > n THEN e.y[t] = e.pf * M6
          ELSE Near(e.pf * M6 + (w[i] * SyY[e.sid][1][i]) \div n, e.y[t], 4 + Abs(e.pf) \div 10 + (Abs(w[i]) * Tol32(SyL1[e.sid][1], n)) \div n)

IstNew(e) ==
  LET J == D.sigs[e.sid] IN
  /\ Answers(e.ret, Fault(J.hop = 0, "InvalidHopSize") \cup Fault(e.wl # Len(J.w), "MismatchedLengths"))
\* every accepted frame releases exactly the next hop samples
IstPush(e) ==
  LET s == sy[e.o]  J == D.sigs[s.sid]
      n == Len(J.w)  q == Append(s.seq, e.f)
  IN /\ ~s.flushed
     /\ IF Len(J.fr[e.f]) # n
        THEN e.ret \in {"MismatchedLengths"} \cup WinFaults(n) /\ e.y = <<>>
        ELSE IF WinRet(n) # "ok" THEN e.ret = WinRet(n)
        ELSE /\ e.ret = "ok" /\ Len(e.y) = J.hop
             /\ \A i \in 1..J.hop : OlaOk(s.sid, J.hop, q, (Len(q) - 1) * J.hop + i - 1, e.y[i])
\* the first flush after a frame releases the window - hop samples still pending, later ones none
IstFlush(e) ==
  LET s == sy[e.o]  J == D.sigs[s.sid]
      k == Len(s.seq)
      m == IF s.flushed \/ k = 0 \/ J.hop >= Len(J.w) THEN 0 ELSE Len(J.w) - J.hop
  IN /\ e.ret = "ok" /\ Len(e.y) = m
     /\ \A i \in 1..m : OlaOk(s.sid, J.hop, s.seq, k * J.hop + i - 1, e.y[i])

\* ---------------------------------------------------- analysis + synthesis
\* every sample reached by a non-zero window value comes back
RoundTrip(e) ==
  LET J == D.sigs[e.sid]  n == Len(J.x)  wl == Len(J.w)  cnt == CeilDiv(n, J.hop)
  IN /\ e.ret = IF n = 0 THEN "ok" ELSE WinRet(wl)
     /\ Len(e.y) = n
     /\ e.ret = "ok" =>
          \A t \in 0..(n - 1) :
            LET R == Reach(t, wl, J.hop, cnt)
                W(f) == J.w[t - (f - 1) * J.hop + 1]
                den == FoldLeft(LAMBDA a, f : a + W(f) * W(f), 0, R)
                tol == FoldLeft(LAMBDA a, f : a + Abs(W(f)) * Tol32(AnWant[e.sid][f].l1, wl), 0, R)
            IN IF den = 0 THEN e.y[t + 1] = 0
               ELSE Near(J.x[t + 1] * M6, e.y[t + 1], 3 + (2 * tol) \div den)

\* Is the logged call one the contract allows?  (A value, not an action: TLC would unroll the
\* quantifiers of an action recursively.)
Ok(e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "stft" -> IF e.r = "frame" THEN OneFrame(e) ELSE StftCall(e)
    [] e.op = "sst_new" -> SstNew(e)
    [] e.op = "sst_next" -> SstNext(e)
    [] e.op = "istft" -> IF e.r = "frame" THEN InvFrame(e) ELSE IstftCall(e)
    [] e.op = "ist_new" -> IstNew(e)
    [] e.op = "ist_push" -> IstPush(e)
    [] e.op = "ist_flush" -> IstFlush(e)
    [] e.op = "rt" -> RoundTrip(e)
    [] e.op = "set" -> e.ret = "ok"

Init == l = 1 /\ an = <<>> /\ sy = <<>>
\* what a call leaves behind
AnAfter(e) ==
  CASE e.op = "reset" -> <<>>
    [] e.op = "sst_new" /\ e.ret = "ok" -> (e.o :> [sid |-> e.sid, f |-> 0]) @@ an
    [] e.op = "sst_next" /\ e.ret = "ok" /\ e.more -> [an EXCEPT ![e.o].f = @ + 1]
    [] OTHER -> an
SyAfter(e) ==
  CASE e.op = "reset" -> <<>>
    [] e.op = "ist_new" /\ e.ret = "ok" -> (e.o :> [sid |-> e.sid, seq |-> <<>>, flushed |-> FALSE]) @@ sy
    [] e.op = "ist_push" /\ e.ret = "ok" -> [sy EXCEPT ![e.o].seq = Append(@, e.f)]
    [] e.op = "ist_flush" /\ sy[e.o].seq # <<>> -> [sy EXCEPT ![e.o].flushed = TRUE]
    [] OTHER -> sy
Next == /\ l <= Len(Ev) /\ l' = l + 1
        /\ Ok(Ev[l]) = TRUE
        /\ an' = AnAfter(Ev[l])
        /\ sy' = SyAfter(Ev[l])
Spec == Init /\ [][Next]_vars
TraceAccepted == IF TLCGet("stats").diameter - 1 = Len(Ev) THEN TRUE
                 ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
