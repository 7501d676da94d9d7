------------------------------ MODULE TraceWeb ------------------------------
(* Trace specification of the browser spectrogram: streamed rows, exported   *)
(* wrappers, pictures on a canvas, answers of the server and of the service  *)
(* worker.  Streamed signals are sparse, so every spectrum is a short sum.   *)
EXTENDS WebOps, LnFix
D == JsonDeserialize(IOEnv.TRACE)
Ev == D.events
T == D.tabs["1024"]
Win == 1024
Hop == 512
VARIABLES l, n, rows, imps, map, mx, pals
vars == <<l, n, rows, imps, map, mx, pals>>
K == 400
Canonical == <<"fire", "legacy", "gray", "viridis", "plasma", "inferno", "rainbow">>

\* ------------------------------------------------------------- streamed rows
\* windowed impulses of row r, <<offset, amplitude in units of 10^-2>>
Part(r, S) == LET P == SelectSeq(S, LAMBDA t : t[1] >= r * Hop /\ t[1] < r * Hop + Win)
              IN [i \in DOMAIN P |-> LET q == P[i][1] - r * Hop IN <<q, Mul6(P[i][2] * 50, M6 - T.c[q + 1])>>]
\* length of a vector (components below 10^8), within 2 + 1/5000 of itself
Hypot(re, im) == LET s == 1 + Max2(Abs(re), Abs(im)) \div 20000  u == re \div s  v == im \div s
                 IN s * ISqrt(u * u + v * v)
Mag(P, k) ==
  LET re == FoldLeft(LAMBDA a, t : a + Mul6(t[2], T.c[((t[1] * k) % Win) + 1]), 0, P)
      im == FoldLeft(LAMBDA a, t : a + Mul6(t[2], T.s[((t[1] * k) % Win) + 1]), 0, P)
  IN Hypot(re, im)
Clamp(v) == IF v < 0 THEN 0 ELSE IF v > K THEN K ELSE v
\* positions in the palette (units 1/K) a magnitude m may have, relative to M, each within e
PosLo(m, M, e) == IF m - e <= 0 THEN 0 ELSE Clamp(K + (Ln8(m - e) - Ln8(M + e)) \div 2302585 - 1)
PosHi(m, M, e) == IF M - e <= 0 THEN K ELSE Clamp(K + (Ln8(m + e) - Ln8(M - e)) \div 2302585 + 2)
PixelOk(c, pal, lo, hi, slack) ==
  \A q \in 1..3 : /\ \E k \in lo..hi : pal[k + 1][q] <= c[q] + slack
                  /\ \E k \in lo..hi : pal[k + 1][q] >= c[q] - slack
\* the row and the largest magnitude after it
RowStep(row, P, pal, M0) ==
  FoldLeft(LAMBDA a, k :
      IF ~a[1] THEN a ELSE
      LET m == Mag(P, k)
          M == Max2(a[2], m)
          e == 2 * Len(P) + 4 + m \div 5000
          c == SubSeq(row, 4 * k + 1, 4 * k + 4)
          ok == /\ c[4] = 255
                /\ IF P = <<>> THEN PixelOk(c, pal, 0, 0, 0) ELSE PixelOk(c, pal, PosLo(m, M, e), PosHi(m, M, e), 1)
      IN <<ok, M>>, <<TRUE, M0>>, [k \in 1..(Win \div 2) |-> k - 1])
Frame(e) ==
  LET S == imps \o [i \in DOMAIN e.imp |-> <<e.imp[i][1] + n, e.imp[i][2]>>]
      due == Complete(n + e.len, rows, Win, Hop)
      R == TLCEval(RowStep(e.row, Part(rows, S), pals[map], mx))
  IN /\ e.ret = "ok"
     /\ n' = n + e.len /\ imps' = S /\ UNCHANGED <<map, pals>>
     /\ IF due THEN Len(e.row) = 2 * Win /\ R[1] = TRUE /\ rows' = rows + 1 /\ mx' = R[2]
        ELSE e.row = <<>> /\ UNCHANGED <<rows, mx>>
Fresh == n' = 0 /\ rows' = 0 /\ imps' = <<>> /\ map' = "rainbow" /\ mx' = 0

\* ------------------------------------------------------------------ wrappers
Close(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= 2 + Abs(b[i]) \div 100000
AllClose(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Close(a[i], b[i])
StftOk(e) ==
  IF e.refuse THEN e.ret \notin {"ok", "answered"}
  ELSE /\ e.ret = "ok" /\ e.h = e.win \div 2 /\ e.w = Len(e.core) /\ e.w = (e.n + e.hop - 1) \div e.hop
       /\ Len(e.flat) = e.w * e.h
       /\ \A f \in 1..e.w : Close(SubSeq(e.flat, (f - 1) * e.h + 1, f * e.h), e.core[f])
       /\ Close(<<e.max>>, <<e.coremax>>)
WrapOk(e) == IF e.refuse THEN e.ret \notin {"ok", "answered"} ELSE e.ret = "ok" /\ AllClose(e.got, e.core)

\* ------------------------------------------------------------------ pictures
Code(m) == <<m % 256, (m \div 256) % 256, (m \div 65536) % 256, 255>>
DrawOk(e) ==
  /\ e.ret = "ok" /\ e.cw = e.w /\ e.ch = e.h /\ e.iw = e.w /\ e.ih = e.h /\ e.at = <<0, 0>>
  /\ Len(e.px) = e.w * e.h
  /\ \A x \in 0..(e.w - 1) : \A y \in 0..(e.h - 1) : e.px[y * e.w + x + 1] = Code(e.mags[x * e.h + y + 1])
  /\ \A i \in DOMAIN e.args : e.args[i] = e.wantarg

\* -------------------------------------------------------------------- server
Files(e) == {e.tree[i] : i \in DOMAIN e.tree}
GetOk(e) ==
  IF e.method \notin {"GET", "HEAD"} THEN e.status = 405
  ELSE IF e.health THEN e.status = 200 /\ e.body = <<>>
  ELSE LET r == Resolve(Files(e), e.segs, e.slash) IN
       /\ e.origin = "*"
       /\ CASE r.kind = "file" -> e.status = 200 /\ e.body = (IF e.method = "GET" THEN r.of ELSE <<>>)
            [] r.kind = "none" -> e.status = 404 /\ e.body = <<>>
            [] r.kind = "redirect" -> e.status \in {301, 302, 307, 308} /\ Plain(e.to) = r.of

\* ------------------------------------------------------------ service worker
\* answers from the cache whenever it holds the request; installing adds the application's files
Want == <<"/", "/index.html", "/app.mjs", "/manifest.json">>
SwOk(e) ==
  LET In(S, i) == \E j \in 1..(i - 1) : e.steps[j] = "install"
      held(i) == {e.cached[k] : k \in DOMAIN e.cached} \cup (IF In(e.steps, i) THEN {Want[k] : k \in DOMAIN Want} ELSE {})
  IN /\ e.ret = "ok" /\ Len(e.answers) = Len(e.steps)
     /\ \A i \in DOMAIN e.steps :
          \/ e.steps[i] = "install"
          \/ e.answers[i] = (IF e.steps[i] \in held(i) THEN "cache:" ELSE "net:") \o e.steps[i]
     /\ {e.asked[i] : i \in DOMAIN e.asked} = {e.steps[i] : i \in {j \in DOMAIN e.steps : e.steps[j] # "install" /\ e.steps[j] \notin held(j)}}
     /\ (\E i \in DOMAIN e.steps : e.steps[i] = "install") => {Want[k] : k \in DOMAIN Want} \subseteq {e.stored[i] : i \in DOMAIN e.stored}

Same == UNCHANGED <<n, rows, imps, map, mx, pals>>
Step(e) ==
  CASE e.op = "reset" -> Fresh /\ UNCHANGED pals
    [] e.op = "clear" -> e.ret = "ok" /\ Fresh /\ UNCHANGED pals
    [] e.op = "palette" -> /\ e.ret = "ok" /\ Len(e.pal) = K + 1
                           /\ pals' = (e.name :> e.pal) @@ pals /\ UNCHANGED <<n, rows, imps, map, mx>>
    [] e.op = "cmap" -> e.ret = "ok" /\ map' = e.name /\ UNCHANGED <<n, rows, imps, mx, pals>>
    [] e.op = "frame" -> Frame(e)
    [] e.op = "stft" -> StftOk(e) = TRUE /\ Same
    [] e.op = "wrap" -> WrapOk(e) = TRUE /\ Same
    [] e.op = "draw" -> DrawOk(e) = TRUE /\ Same
    [] e.op = "get" -> GetOk(e) = TRUE /\ Same
    [] e.op = "sw" -> SwOk(e) = TRUE /\ Same
Init == l = 1 /\ n = 0 /\ rows = 0 /\ imps = <<>> /\ map = "rainbow" /\ mx = 0 /\ pals = <<>>
Next == l <= Len(Ev) /\ Step(Ev[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == LET d == TLCGet("stats").diameter
            IN IF d - 1 = Len(Ev) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================
