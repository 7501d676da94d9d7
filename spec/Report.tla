------------------------------- MODULE Report -------------------------------
(* Design model: the benchmark run and the readme update over the three      *)
(* files they share.  A file is a number (the run or edit that wrote it);     *)
(* 0 none, -1 not readable as records.  shown is the file whose table the     *)
(* readme carries (0 none); marks tells whether the readme has its markers.   *)
(* Every history of MaxLen operations is printed for replay.                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT MaxLen
VARIABLES latest, previous, shown, readme, next, h
vars == <<latest, previous, shown, readme, next, h>>
Ops == {"bench", "publish", "edit", "corrupt", "remove", "marks", "nomarks", "noreadme"}
Init == latest = 0 /\ previous = 0 /\ shown = 0 /\ readme = "marks" /\ next = 1 /\ h = <<>>
Bench == /\ latest' = next /\ next' = next + 1
         /\ previous' = (IF latest > 0 THEN latest ELSE previous)
         /\ UNCHANGED <<shown, readme>>
CanPublish == latest > 0 /\ readme # "none"
Publish == /\ shown' = (IF CanPublish /\ readme = "marks" THEN latest ELSE shown)
           /\ UNCHANGED <<latest, previous, readme, next>>
Edit == latest' = next /\ next' = next + 1 /\ UNCHANGED <<previous, shown, readme>>
Corrupt == latest' = -1 /\ UNCHANGED <<previous, shown, readme, next>>
Remove == latest' = 0 /\ UNCHANGED <<previous, shown, readme, next>>
Doc(r) == readme' = r /\ shown' = 0 /\ UNCHANGED <<latest, previous, next>>
Step(o) == CASE o = "bench" -> Bench [] o = "publish" -> Publish [] o = "edit" -> Edit [] o = "corrupt" -> Corrupt
             [] o = "remove" -> Remove [] o = "marks" -> Doc("marks") [] o = "nomarks" -> Doc("plain") [] o = "noreadme" -> Doc("none")
Next == /\ Len(h) < MaxLen
        /\ \E o \in Ops : /\ Step(o) /\ h' = Append(h, o)
                          /\ (Len(h) + 1 = MaxLen => PrintT("HIST " \o ToJson(h')))
Spec == Init /\ [][Next]_vars
Last == h'[Len(h')]
\* a run never loses the records before it, and the readme changes only when it is published or rewritten
Kept == [][(Len(h') > Len(h) /\ Last = "bench" /\ latest > 0) => previous' = latest]_vars
Still == [][(Len(h') > Len(h) /\ shown' # shown) => Last \in {"publish", "marks", "nomarks", "noreadme"}]_vars
Fresh == previous <= next /\ shown < next /\ (previous > 0 => previous # latest)
=============================================================================
