------------------------------ MODULE AudioOps ------------------------------
(* From a recording to a picture: interleaved samples, the mono signal the   *)
(* spectrogram programs analyse, and the picture they draw.                  *)
EXTENDS Integers, Sequences, SequencesExt, TLC
Sum(s) == FoldLeft(LAMBDA a, v : a + v, 0, s)
Frames(v, ch) == Len(v) \div ch
Frame(v, ch, i) == SubSeq(v, (i - 1) * ch + 1, i * ch)
\* channel sums: the mono sample is the sum divided by the channel count
Mixed(v, ch) == [i \in 1..Frames(v, ch) |-> Sum(Frame(v, ch, i))]
\* a file that declares its length (0: it does not) has no frames beyond it
Truncated(s, declared) == IF declared > 0 /\ declared < Len(s) THEN SubSeq(s, 1, declared) ELSE s
Mono(v, ch, declared) == Truncated(Mixed(v, ch), declared)
\* pixel in column x (from 0), row y (from 0, top first) of a picture h rows high
Cell(cols, h, x, y) == cols[x + 1][h - y]
High(c) == [q \in DOMAIN c |-> c[q] \div 256]
Stored(c, depth) == IF depth = 8 THEN High(c) ELSE c
Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Byte(b) == Hex[(b \div 16) + 1] \o Hex[(b % 16) + 1]
Css(c) == LET h == High(c) IN "#" \o Byte(h[1]) \o Byte(h[2]) \o Byte(h[3])
=============================================================================
