------------------------------- MODULE Engine -------------------------------
(* A transform object (FFT implementation, plan, real-FFT or DCT planner)   *)
(* with reusable scratch buffers and tables cached by length.  Every public *)
(* call is a program of micro-steps over buffers that are taken out of the  *)
(* object, grown when too short, never shrunk, and put back; calls nest     *)
(* (a chirp transform calls the power-of-two transform twice).              *)
(* A taken buffer is [b, len, fresh]: its first `fresh` cells were written  *)
(* by the current call, the rest is what earlier calls left behind.         *)
(* The model decides, over histories of unbounded length, that no value a   *)
(* call reads is left over from an earlier one, and it emits one history    *)
(* per (reachable object state, next call) for replay on the real objects.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kind,      \* "fft" | "rfft" | "dct"
          Lens,      \* lengths used by the calls
          WholeRead, \* TRUE: the defective design that transforms the whole buffer (must be refuted)
          Emit       \* TRUE: print histories

VARIABLES obj, keys, todo, frames, bad, start, cur, hist
vars == <<obj, keys, todo, frames, bad, start, cur, hist>>

RECURSIVE Up(_, _)
Up(p, n) == IF p >= n THEN p ELSE Up(2 * p, n)
Pow2(n) == Up(1, n) = n
ChirpLen(n) == Up(1, 2 * n - 1)

Take(b, n) == <<"take", b, n>>
Write(n) == <<"write", n>>
Read(n) == <<"read", n>>
Put == <<"put">>
Key(k) == <<"key", k>>

\* power-of-two transform of the top frame (or of the caller's data) of n points
Stock(n) == IF n <= 16 THEN <<>>
            ELSE <<Key(<<"tw", n>>), Take("scratch", n), Take("sre", n), Take("sim", n), Write(n),
                   Key(<<"tw", n>>), Take("qre", n), Write(n), Read(n), Put, Read(n), Put, Put, Put>>
Fft(n) == IF n <= 1 THEN <<>>
          ELSE IF Pow2(n) THEN Stock(n)
          ELSE LET m == ChirpLen(n)
               IN <<Key(<<"bl", n>>), Take("blue", m), Write(n), Write(m), Read(m)>> \o Stock(m)
                  \o <<Read(m)>> \o Stock(m) \o <<Read(n), Put>>
Split(n) == IF Pow2(n) /\ n > 16
            THEN <<Key(<<"tw", n>>), Take("qre", n), Write(n), Read(n), Put>> ELSE Fft(n)
Strided(n) == <<Take("scratch", n), Write(n), Read(n)>> \o Fft(n) \o <<Read(n), Put>>
\* real transform of n points through a complex one of m = n / 2
Rfft(n) == <<Key(<<"rt", n \div 2>>), Take("rscratch", n \div 2), Write(n \div 2), Read(n \div 2)>>
           \o Fft(n \div 2) \o <<Read(n \div 2), Put>>
Dct(n) == <<Key(<<"cos", n>>), Take("dbuf", 2 * n), Write(2 * n), Take("dspec", n + 1), Write(n + 1),
            Read(n + 1), Put, Read(2 * n), Put>> \o Rfft(2 * n)

OpNames == CASE Kind = "fft" -> {"fft", "split", "stride", "err"}
             [] Kind = "rfft" -> {"rfft", "err", "table"}
             [] Kind = "dct" -> {"dct", "err"}
Prog(o) == CASE o[1] = "fft" -> Fft(o[2])
             [] o[1] = "split" -> Split(o[2])
             [] o[1] = "stride" -> Strided(o[2])
             [] o[1] = "rfft" -> Rfft(o[2])
             [] o[1] = "table" -> <<Key(<<"rt", o[2] \div 2>>)>>
             [] o[1] = "dct" -> Dct(o[2])
             [] o[1] = "err" -> <<>>
Ops == {<<r, n>> : r \in OpNames, n \in Lens}
Bufs == CASE Kind = "fft" -> {"scratch", "sre", "sim", "qre", "blue"}
          [] Kind = "rfft" -> {"rscratch", "scratch", "sre", "sim", "qre", "blue"}
          [] Kind = "dct" -> {"dbuf", "dspec", "rscratch", "scratch", "sre", "sim", "qre", "blue"}

Idle == todo = <<>> /\ cur = <<>>
Init == /\ obj = [b \in Bufs |-> 0] /\ keys = {} /\ todo = <<>> /\ frames = <<>>
        /\ bad = FALSE /\ start = <<>> /\ cur = <<>> /\ hist = <<>>

Begin == /\ Idle
         /\ \E o \in Ops : cur' = o /\ todo' = Prog(o)
         /\ start' = <<obj, keys>>
         /\ UNCHANGED <<obj, keys, frames, bad, hist>>
Top == frames[Len(frames)]
Rest == SubSeq(frames, 1, Len(frames) - 1)
StepTake(b, n) ==
  /\ frames' = Append(frames, [b |-> b, len |-> IF obj[b] < n THEN n ELSE obj[b], fresh |-> 0])
  /\ obj' = [obj EXCEPT ![b] = 0]
  /\ UNCHANGED <<keys, bad>>
StepWrite(n) ==
  /\ frames' = Append(Rest, [Top EXCEPT !.fresh = IF @ < n THEN n ELSE @])
  /\ UNCHANGED <<obj, keys, bad>>
StepRead(n) ==
  /\ bad' = (bad \/ Top.fresh < (IF WholeRead THEN Top.len ELSE n) \/ Top.len < n)
  /\ UNCHANGED <<obj, keys, frames>>
StepPut ==
  /\ obj' = [obj EXCEPT ![Top.b] = Top.len] /\ frames' = Rest
  /\ UNCHANGED <<keys, bad>>
StepKey(k) == keys' = keys \cup {k} /\ UNCHANGED <<obj, frames, bad>>
Step == /\ cur # <<>> /\ todo # <<>>
        /\ LET s == Head(todo) IN
             CASE s[1] = "take" -> StepTake(s[2], s[3])
               [] s[1] = "write" -> StepWrite(s[2])
               [] s[1] = "read" -> StepRead(s[2])
               [] s[1] = "put" -> StepPut
               [] s[1] = "key" -> StepKey(s[2])
        /\ todo' = Tail(todo)
        /\ UNCHANGED <<start, cur, hist>>
End == /\ cur # <<>> /\ todo = <<>>
       /\ Emit => PrintT("HIST " \o ToJson([h |-> hist, op |-> cur, ch |-> <<obj, keys>> # start]))
       /\ hist' = Append(hist, cur) /\ cur' = <<>> /\ start' = <<>>
       /\ UNCHANGED <<obj, keys, todo, frames, bad>>
Next == Begin \/ Step \/ End
Spec == Init /\ [][Next]_vars
View == <<obj, keys, todo, frames, bad, start, cur>>

\* no value left behind by an earlier call is ever used
NoStale == ~bad
\* every buffer is back in the object when a call returns, and none ever shrinks
Whole == cur = <<>> => frames = <<>>
Monotone == [][cur' = <<>> /\ cur # <<>> => \A b \in Bufs : obj'[b] >= start[1][b]]_vars
\* a refused call changes nothing
ErrPure == (cur # <<>> /\ cur[1] = "err") => start = <<obj, keys>>
=============================================================================
