------------------------------ MODULE TraceAudio ------------------------------
(* Trace specification of the spectrogram programs and their library: files  *)
(* read, pictures drawn by the programs, pictures saved.                     *)
EXTENDS AudioOps, Json, IOUtils
D == JsonDeserialize(IOEnv.TRACE)
Ev == D.events
VARIABLE l
Abs(x) == IF x < 0 THEN -x ELSE x
\* e.y holds the samples in units of 10^-4 of a 16-bit quantisation step; the file has e.bits bits
P2(k) == 2 ^ k
\* 10^4 m / q
Quo4(m, q) == (m \div q) * 10000 + ((m % q) * 10000) \div q
Units(e, m) == IF e.bits <= 16 THEN Quo4(m * P2(16 - e.bits), e.ch) ELSE Quo4(m, e.ch * P2(e.bits - 16))
ReadOk(e) ==
  CASE e.fault = "none" ->
         LET m == Mono(e.v, e.ch, e.declared) IN
         /\ e.ret = "ok" /\ e.rate = e.wantrate /\ Len(e.y) = Len(m)
         /\ \A i \in DOMAIN m : Abs(e.y[i] - Units(e, m[i])) <= 60
    \* a recording cut short: refused, or what was left of it
    [] e.fault = "cut" ->
         LET m == Mono(e.v, e.ch, e.declared) IN
         \/ e.ret = "err"
         \/ /\ e.lenient /\ e.ret = "ok" /\ Len(e.y) <= Len(m)
            /\ \A i \in DOMAIN e.y : Abs(e.y[i] - Units(e, m[i])) <= 60
    [] e.fault = "bad" -> e.ret = "err"
\* every pixel of the picture e.px satisfies its requirement
PixelsOk(e, ok(_, _, _)) ==
  /\ Len(e.px) = e.h
  /\ \A y \in 0..(e.h - 1) : Len(e.px[y + 1]) = e.w /\ \A x \in 0..(e.w - 1) : ok(e.px[y + 1][x + 1], x, y)
\* colour bounds <<r, g, b, r', g', b'>> (16 bit) around what the library computes
Within(p, b, depth) ==
  /\ Len(p) = 3
  /\ \A q \in 1..3 : LET lo == Stored(<<b[q]>>, depth)[1]  hi == Stored(<<b[q + 3]>>, depth)[1] IN lo <= p[q] /\ p[q] <= hi
\* a run of a program: the picture has a column per frame and half a window of rows
RunOk(e) ==
  IF e.want # "ok" THEN e.status # 0 /\ ~e.panicked
  ELSE /\ e.status = 0
       /\ e.w = Len(e.cols) /\ e.h = e.win \div 2 /\ e.gotdepth = e.depth
       /\ Len(e.cols) = (Len(e.mono) + e.win \div 2 - 1) \div (e.win \div 2)
       /\ PixelsOk(e, LAMBDA p, x, y : Within(p, Cell(e.cols, e.h, x, y), e.depth))
SaveOk(e) == /\ e.ret = "ok" /\ e.gotdepth = e.depth
             /\ Len(e.px) = Len(e.img) /\ e.w = e.wantw
             /\ PixelsOk(e, LAMBDA p, x, y : p = Stored(e.img[y + 1][x + 1], e.depth))
SvgOk(e) ==
  LET h == Len(e.img)  w == e.wantw IN
  /\ e.ret = "ok" /\ e.box = <<0, 0, w, h>> /\ Len(e.rects) = w * h
  /\ \A y \in 0..(h - 1) : \A x \in 0..(w - 1) :
       LET r == e.rects[y * w + x + 1] IN r.at = <<x, y, 1, 1>> /\ r.fill = Css(e.img[y + 1][x + 1])
Ok(e) == CASE e.op = "reset" -> TRUE
           [] e.op = "read" -> ReadOk(e)
           [] e.op = "run" -> RunOk(e)
           [] e.op = "save" -> SaveOk(e)
           [] e.op = "svg" -> SvgOk(e)
Init == l = 1
Next == l <= Len(Ev) /\ Ok(Ev[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == LET d == TLCGet("stats").diameter
            IN IF d - 1 = Len(Ev) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================
