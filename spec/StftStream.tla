---------------------------- MODULE StftStream -----------------------------
(* The streaming analysis cursor over a signal of n samples.  A call with a *)
(* buffer of the wrong length is refused and moves nothing; otherwise a     *)
(* frame is produced while the cursor is inside the signal, and the cursor  *)
(* moves by the hop.  Decided: exactly ceil(n/hop) frames, frame f starting *)
(* at f*hop, then the end for ever, on every interleaving of refused calls. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxN, MaxHop, Emit
VARIABLES n, hop, pos, starts, ends, hist
vars == <<n, hop, pos, starts, ends, hist>>
Init == n \in 0..MaxN /\ hop \in 1..MaxHop /\ pos = 0 /\ starts = <<>> /\ ends = 0 /\ hist = <<>>
Next1 == IF pos >= n THEN /\ ends < 2 /\ ends' = ends + 1 /\ UNCHANGED <<n, hop, pos, starts>>
         ELSE starts' = Append(starts, pos) /\ pos' = pos + hop /\ UNCHANGED <<n, hop, ends>>
Good == Next1 /\ hist' = Append(hist, "next")
Bad == /\ IF hist = <<>> THEN TRUE ELSE hist[Len(hist)] # "bad"
       /\ hist' = Append(hist, "bad") /\ UNCHANGED <<n, hop, pos, starts, ends>>
Next == Good \/ Bad
Spec == Init /\ [][Next]_vars
Total == (n + hop - 1) \div hop
Frames == /\ \A f \in 1..Len(starts) : starts[f] = (f - 1) * hop /\ starts[f] < n
          /\ Len(starts) <= Total
          /\ ends > 0 => Len(starts) = Total
Emitted == (Emit /\ ends = 2) => PrintT("HIST " \o ToJson([n |-> n, hop |-> hop, h |-> hist]))
=============================================================================
