----------------------------- MODULE ReportOps -----------------------------
(* Benchmark records and the table made from them.                          *)
(* A record: lib, tr, size, mode, t (ns), ow + oc/100 (operations per        *)
(* second), al (allocations), best, prev (<<>> or <<ns>>),                    *)
(* chg (<<>> or <<change in units of 1 %, rounded down>>).                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Key(r) == <<r.lib, r.tr, r.size, r.mode>>
Group(r) == <<r.tr, r.size>>
\* what one run measures for one size
Modes(par) == {<<"kofft", "Complex", "Single">>, <<"kofft", "Complex", "Radix2">>, <<"kofft", "Complex", "Radix4">>,
               <<"kofft", "Complex", "SplitRadix">>, <<"kofft", "Complex", "Auto">>, <<"rustfft", "Complex", "Single">>,
               <<"kofft", "Real", "Direct">>, <<"kofft", "Real", "Packed">>, <<"realfft", "Real", "Single">>}
              \cup (IF par THEN {<<"kofft", "Complex", "Parallel">>} ELSE {})
Complete(rs, sizes, par) ==
  LET want == {<<m[1], m[2], sizes[i], m[3]>> : m \in Modes(par), i \in DOMAIN sizes}
  IN {Key(rs[i]) : i \in DOMAIN rs} = want /\ Len(rs) = Cardinality(want)
\* by transform, then size, then time
Before(a, b) == IF a.tr # b.tr THEN a.tr = "Complex" ELSE IF a.size # b.size THEN a.size < b.size ELSE a.t <= b.t
Sorted(rs) == \A i \in 1..(Len(rs) - 1) : Before(rs[i], rs[i + 1])
BestOk(rs) == \A i \in DOMAIN rs : rs[i].best = (\A j \in DOMAIN rs : Group(rs[j]) = Group(rs[i]) => rs[i].t <= rs[j].t)
\* floor(100 (p - t) / p) without leaving 32 bits
Percent(p, t) == LET d == p - t  q == d \div p  r == d % p IN 100 * q + (IF r < 20000000 THEN (100 * r) \div p ELSE r \div (p \div 100))
\* the time of the last entry of the old file with the same key
Old(rs, k) == FoldLeft(LAMBDA a, r : IF Key(r) = k THEN <<r.t>> ELSE a, <<>>, rs)
HistoryOk(rs, old) ==
  \A i \in DOMAIN rs :
    LET o == Old(old, Key(rs[i])) IN
    /\ rs[i].prev = o
    /\ IF o = <<>> THEN rs[i].chg = <<>>
       ELSE Len(rs[i].chg) = 1 /\ rs[i].chg[1] - Percent(o[1], rs[i].t) \in -1..1

\* ------------------------------------------------------------------- table
Pad(n, w) == LET s == ToString(n) IN FoldLeft(LAMBDA a, i : IF Len(a) < w THEN "0" \o a ELSE a, s, [i \in 1..w |-> i])
\* nanoseconds as milliseconds with three decimals
Ms(t) == LET u == (t + 500) \div 1000 IN ToString(u \div 1000) \o "." \o Pad(u % 1000, 3)
DateOf(d) == LET T == {i \in 1..Len(d) : SubSeq(d, i, i) = "T"} IN
             IF T = {} THEN d ELSE SubSeq(d, 1, (CHOOSE i \in T : \A j \in T : i <= j) - 1)
Row(r, env) == "| " \o r.lib \o " | " \o r.tr \o " | " \o ToString(r.size) \o " | " \o r.mode \o " | " \o Ms(r.t) \o " ms | "
               \o ToString(r.ow) \o "." \o Pad(r.oc, 2) \o " | " \o ToString(r.al) \o " | " \o DateOf(env.date) \o " " \o env.runner \o " |\n"
Columns == "| Library | Transform | Size (N) | Mode | Time/op | Ops/sec | Allocations | Date/Runner |\n"
        \o "| --- | --- | --- | --- | --- | --- | --- | --- |\n"
Table(f) == "Last run: " \o f.env.date \o " on " \o f.env.runner \o " (" \o f.env.cpu \o "; " \o f.env.rustc \o "; flags: `" \o f.env.flags \o "`)\n\n"
            \o Columns \o FoldLeft(LAMBDA a, r : a \o Row(r, f.env), "", f.recs)
Find(s, t) == LET K == {i \in 1..(Len(s) - Len(t) + 1) : SubSeq(s, i, i + Len(t) - 1) = t}
              IN IF K = {} THEN 0 ELSE CHOOSE i \in K : \A j \in K : i <= j
StartMark == "<!-- BENCH_START -->"
EndMark == "<!-- BENCH_END -->"
\* the readme with the text between its markers replaced
Published(doc, f) ==
  LET s == Find(doc, StartMark)  e == Find(doc, EndMark) IN
  IF s = 0 \/ e = 0 THEN doc
  ELSE SubSeq(doc, 1, s + Len(StartMark) - 1) \o "\n" \o Table(f) \o SubSeq(doc, e, Len(doc))
=============================================================================
