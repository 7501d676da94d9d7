---------------------------- MODULE IstftStream ----------------------------
(* The streaming synthesis buffer, as a machine over symbolic sample        *)
(* contributions <<frame, offset>>: a buffer of cells (bags of              *)
(* contributions and of squared-window contributions), a write position and *)
(* an output position; a push adds one frame, hands out the next hop cells  *)
(* (normalising them), moves both positions and clears the cells that the   *)
(* next frame reaches for the first time, growing the buffer if needed.     *)
(* Decided: what is handed out is, sample by sample, exactly the batch      *)
(* overlap-add, each sample once, for every window/hop in the bounds and    *)
(* every history of pushes, refused pushes and flushes.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxWin, MaxHop, MaxFrames, InitSlack, Emit,
          WinOnly  \* TRUE: the defective design that reserves only a window ahead
VARIABLES wl, hop, buf, pos, out, n, flushed, given, hist, okay
vars == <<wl, hop, buf, pos, out, n, flushed, given, hist, okay>>
Last(h) == IF h = <<>> THEN "-" ELSE h[Len(h)]
Span == IF wl > hop \/ WinOnly THEN wl ELSE hop
\* a cell: set of <<frame, offset>> added, and whether it was already normalised (handed out)
Empty == [c |-> {}, done |-> FALSE]
Init == /\ wl \in 1..MaxWin /\ hop \in 1..MaxHop
        /\ buf = [i \in 1..(Span + InitSlack * hop) |-> Empty]
        /\ pos = 0 /\ out = 0 /\ n = 0 /\ flushed = FALSE /\ given = <<>> /\ hist = <<>> /\ okay = TRUE
\* batch overlap-add of the first k frames at sample t
Batch(t, k) == {<<f, t - (f - 1) * hop>> : f \in {g \in 1..k : (g - 1) * hop <= t /\ t < (g - 1) * hop + wl}}
Push ==
  /\ ~flushed /\ n < MaxFrames
  /\ LET added == [i \in DOMAIN buf |-> IF i - 1 >= pos /\ i - 1 < pos + wl
                                        THEN [buf[i] EXCEPT !.c = @ \cup {<<n + 1, i - 1 - pos>>}] ELSE buf[i]]
         emit == SubSeq(added, out + 1, IF out + hop <= Len(added) THEN out + hop ELSE Len(added))
         done == [i \in DOMAIN added |-> IF i > out /\ i <= out + hop THEN [added[i] EXCEPT !.done = TRUE] ELSE added[i]]
         p2 == pos + hop
         grown == IF p2 + Span > Len(done) THEN done \o [i \in 1..(p2 + Span - Len(done)) |-> Empty] ELSE done
         clr == [i \in DOMAIN grown |-> IF i > p2 + Span - hop /\ i <= p2 + Span THEN Empty ELSE grown[i]]
     IN /\ okay' = (okay /\ pos + wl <= Len(buf) /\ out + hop <= Len(added)
                         /\ \A i \in 1..Len(emit) : ~emit[i].done)
        /\ given' = given \o [i \in 1..Len(emit) |-> emit[i].c]
        /\ buf' = clr /\ pos' = p2 /\ out' = out + hop /\ n' = n + 1
  /\ hist' = Append(hist, "push") /\ UNCHANGED <<wl, hop, flushed>>
Refuse == /\ Len(hist) < MaxFrames + 4 /\ Last(hist) # "bad"
          /\ ~flushed /\ hist' = Append(hist, "bad")
          /\ UNCHANGED <<wl, hop, buf, pos, out, n, flushed, given, okay>>
Flush == /\ Len(hist) < MaxFrames + 4
         /\ (n = 0 => Last(hist) # "flush")
         /\ hist' = Append(hist, "flush")
         /\ LET e == pos + wl - hop
                m == IF n = 0 \/ out >= e THEN <<>> ELSE SubSeq(buf, out + 1, e)
            IN /\ given' = given \o [i \in 1..Len(m) |-> m[i].c]
               /\ okay' = (okay /\ (n > 0 /\ out < e => e <= Len(buf)) /\ \A i \in 1..Len(m) : ~m[i].done)
               /\ out' = IF m = <<>> THEN out ELSE e
         /\ flushed' = (flushed \/ n > 0)
         /\ UNCHANGED <<wl, hop, buf, pos, n>>
\* two flushes are enough to see that the second one is empty
Next == Push \/ Refuse \/ (Flush /\ (Len(hist) >= 2 => ~(hist[Len(hist)] = "flush" /\ hist[Len(hist) - 1] = "flush")))
Spec == Init /\ [][Next]_vars
View == <<wl, hop, buf, pos, out, n, flushed, given, okay>>
\* no out-of-range access, no sample handed out twice
Safe == okay
\* everything handed out so far is the batch reconstruction of the frames, in order, without gaps
Refines == \A t \in 1..Len(given) : given[t] = Batch(t - 1, n)
Amount == Len(given) = IF flushed /\ wl > hop THEN (n - 1) * hop + wl ELSE n * hop
\* cells that are still to be written hold nothing from before
Clean == ~flushed => \A i \in DOMAIN buf : i > pos + Span - hop => buf[i] = Empty
Emitted == (Emit /\ hist # <<>>) => PrintT("HIST " \o ToJson([wl |-> wl, hop |-> hop, h |-> hist]))
=============================================================================
