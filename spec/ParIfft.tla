------------------------------- MODULE ParIfft -------------------------------
(* The inverse transform under changing parallel settings.  Each of Callers *)
(* runs one inverse transform over its own N cells: it reads the settings   *)
(* once, then either does every cell itself or hands the cells to a pool of *)
(* workers (first conjugation, join, transform, second conjugation+scaling, *)
(* join), while a toggler changes the settings at any moment.  Decided: on  *)
(* every interleaving each cell is conjugated and scaled exactly as often   *)
(* and in the same order as in the serial code, so settings and schedules   *)
(* cannot show in a result.                                                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Callers, N, Thresholds, Recheck
VARIABLES thr, pc, par, work, cells
vars == <<thr, pc, par, work, cells>>
Cells == 1..N
Init == /\ thr \in Thresholds
        /\ pc = [c \in Callers |-> "start"] /\ par = [c \in Callers |-> FALSE]
        /\ work = [c \in Callers |-> {}] /\ cells = [c \in Callers |-> [i \in Cells |-> <<>>]]
Toggle == \E t \in Thresholds : thr' = t /\ UNCHANGED <<pc, par, work, cells>>
Mark(c, i, m) == cells' = [cells EXCEPT ![c][i] = Append(@, m)]
Decide(c) == /\ pc[c] = "start"
             /\ par' = [par EXCEPT ![c] = (N >= thr)]
             /\ pc' = [pc EXCEPT ![c] = "conj"] /\ work' = [work EXCEPT ![c] = Cells]
             /\ UNCHANGED <<thr, cells>>
\* a worker (any order) when parallel, the lowest cell when serial
Pick(c) == IF par[c] THEN work[c] ELSE {CHOOSE i \in work[c] : \A j \in work[c] : i <= j}
Conj(c) == /\ pc[c] = "conj" /\ work[c] # {}
           /\ \E i \in Pick(c) : Mark(c, i, "conj") /\ work' = [work EXCEPT ![c] = @ \ {i}]
           /\ UNCHANGED <<thr, pc, par>>
Join1(c) == /\ pc[c] = "conj" /\ work[c] = {}
            /\ cells' = [cells EXCEPT ![c] = [i \in Cells |-> Append(@[i], "fft")]]
            /\ pc' = [pc EXCEPT ![c] = "scale"] /\ work' = [work EXCEPT ![c] = Cells]
            \* the defective variant asks again and skips the second half when the answer changed
            /\ IF Recheck /\ par[c] # (N >= thr) THEN par' = [par EXCEPT ![c] = ~@] ELSE UNCHANGED par
            /\ UNCHANGED thr
Scale(c) == /\ pc[c] = "scale" /\ work[c] # {}
            /\ \E i \in Pick(c) : Mark(c, i, "conjscale") /\ work' = [work EXCEPT ![c] = @ \ {i}]
            /\ UNCHANGED <<thr, pc, par>>
Done(c) == /\ pc[c] = "scale" /\ work[c] = {} /\ pc' = [pc EXCEPT ![c] = "done"]
           /\ UNCHANGED <<thr, par, work, cells>>
Next == Toggle \/ \E c \in Callers : Decide(c) \/ Conj(c) \/ Join1(c) \/ Scale(c) \/ Done(c)
Fair == \A c \in Callers : WF_vars(Decide(c)) /\ WF_vars(Conj(c)) /\ WF_vars(Join1(c)) /\ WF_vars(Scale(c)) /\ WF_vars(Done(c))
Spec == Init /\ [][Next]_vars /\ Fair
\* the result of a finished call is the serial result
SerialResult == \A c \in Callers : pc[c] = "done" => \A i \in Cells : cells[c][i] = <<"conj", "fft", "conjscale">>
\* the transform never starts before every cell was conjugated
Barrier == \A c \in Callers : \A i, j \in Cells :
             (Len(cells[c][i]) >= 2) => (Len(cells[c][j]) >= 2)
Termination == \A c \in Callers : <>(pc[c] = "done")
=============================================================================
