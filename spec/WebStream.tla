----------------------------- MODULE WebStream -----------------------------
(* Design of the row stream: samples are appended to a buffer, a call        *)
(* answers with one row when the buffer holds a window, and then drops one   *)
(* hop of it.  Whatever the sizes of the calls, row r covers the samples     *)
(* from r * Hop on of everything pushed since the last reset.  Histories of  *)
(* calls are printed for replay.                                             *)
EXTENDS WebOps, Json
CONSTANTS Win, Hop, Sizes, MaxLen, DropWindow
VARIABLES buf, n, rows, map, h
vars == <<buf, n, rows, map, h>>
Init == buf = <<>> /\ n = 0 /\ rows = <<>> /\ map = 0 /\ h = <<>>
Say(o) == h' = Append(h, o) /\ (Len(h) + 1 = MaxLen => PrintT("HIST " \o ToJson(h')))
Push(k) == LET b == buf \o [i \in 1..k |-> n + i - 1] IN
  /\ n' = n + k /\ map' = map
  /\ IF Len(b) >= Win THEN /\ rows' = Append(rows, [at |-> SubSeq(b, 1, Win), map |-> map])
                           /\ buf' = SubSeq(b, (IF DropWindow THEN Win ELSE Hop) + 1, Len(b))
     ELSE rows' = rows /\ buf' = b
Reset == buf' = <<>> /\ n' = 0 /\ rows' = <<>> /\ map' = 0
Map(m) == map' = m /\ UNCHANGED <<buf, n, rows>>
Next == /\ Len(h) < MaxLen
        /\ \/ \E k \in Sizes : Push(k) /\ Say(ToString(k))
           \/ Reset /\ Say("reset")
           \/ \E m \in 0..1 : Map(m) /\ Say("map" \o ToString(m))
Spec == Init /\ [][Next]_vars
InPlace == \A r \in DOMAIN rows : rows[r].at = [i \in 1..Win |-> (r - 1) * Hop + i - 1]
Suffix == buf = [i \in 1..(n - Len(rows) * Hop) |-> Len(rows) * Hop + i - 1]
\* a call answers exactly when the next row is complete
Prompt == [][(n' >= n /\ h' # h /\ Len(rows') >= Len(rows) /\ map' = map /\ (rows' # rows \/ n' # n)) =>
               (Len(rows') > Len(rows)) = Complete(n', Len(rows), Win, Hop)]_vars
\* nothing is served that is not in the folder
Names == {"index.html", "a", "..", "", "x"}
Paths == {<<p>> : p \in Names \ {"..", ""}} \cup {<<"a", p>> : p \in {"x", "index.html"}}
Trees == {t \in SUBSET Paths : Cardinality(t) <= 3 /\ ~(<<"a">> \in t /\ \E p \in t : Len(p) = 2)}
Requests == {<<>>} \cup {<<p>> : p \in Names} \cup {<<p, q>> : p, q \in Names}
ASSUME \A t \in Trees, s \in Requests, b \in BOOLEAN :
         LET r == Resolve(t, s, b) IN
         /\ r.kind = "file" => r.of \in t
         /\ r.kind = "none" => <<"index.html">> \notin t
         /\ s \in t => r = [kind |-> "file", of |-> s]
=============================================================================
