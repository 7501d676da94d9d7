---------------------------- MODULE AudioDecode ----------------------------
(* Design of the decode loop: packets of any size arrive, each is mixed down *)
(* and appended, a reset clears the decoder but not what was appended, and   *)
(* the result is cut to the declared length at the end of the stream.        *)
(* Whatever the packets, the result is the mixed signal.                     *)
EXTENDS AudioOps, FiniteSets
CONSTANTS MaxFrames, MaxCh, MaxPacket
VARIABLES v, ch, declared, pos, acc, resets, done
vars == <<v, ch, declared, pos, acc, resets, done>>
Init == /\ ch \in 1..MaxCh
        /\ \E n \in 0..MaxFrames : /\ v = [i \in 1..(n * ch) |-> i * i - 3 * i]
                                   /\ declared \in 0..(n + 1)
        /\ pos = 0 /\ acc = <<>> /\ resets = 0 /\ done = FALSE
Packet == /\ ~done /\ pos < Frames(v, ch)
          /\ \E k \in 1..MaxPacket :
               /\ pos + k <= Frames(v, ch)
               /\ acc' = acc \o Mixed(SubSeq(v, pos * ch + 1, (pos + k) * ch), ch)
               /\ pos' = pos + k
          /\ UNCHANGED <<v, ch, declared, resets, done>>
Reset == /\ ~done /\ resets < 1 /\ resets' = resets + 1 /\ UNCHANGED <<v, ch, declared, pos, acc, done>>
End == /\ ~done /\ pos = Frames(v, ch)
       /\ acc' = Truncated(acc, declared) /\ done' = TRUE
       /\ UNCHANGED <<v, ch, declared, pos, resets>>
Next == Packet \/ Reset \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Packet) /\ WF_vars(End)
Progress == acc = SubSeq(Mixed(v, ch), 1, pos) \/ done
Right == done => acc = Mono(v, ch, declared)
Finishes == <>done
=============================================================================
