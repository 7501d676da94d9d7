---------------------------- MODULE TraceReport ----------------------------
(* Trace specification of benchmark runs and readme updates.  State: the     *)
(* identity (hash) of the three files and the records of the latest one;     *)
(* ok says whether a benchmark run / the update can read it.                 *)
EXTENDS ReportOps, Json, IOUtils
D == JsonDeserialize(IOEnv.TRACE)
Ev == D.events
VARIABLES l, st
NoRecs == [env |-> <<>>, recs |-> <<>>]
Start == [lat |-> "-", ok |-> FALSE, f |-> NoRecs, prv |-> "-", doc |-> "-"]
\* every event carries what the three files are afterwards: e.lat, e.prv (hashes), e.doc (text, "-" none)
BenchRun(e) ==
  /\ e.ret = 0
  /\ e.prv = (IF st.ok THEN st.lat ELSE st.prv)
  /\ e.doc = st.doc
  /\ e.lat # "-" /\ e.envok
  /\ Complete(e.recs, e.sizes, e.par) /\ Sorted(e.recs) /\ BestOk(e.recs)
  /\ HistoryOk(e.recs, IF st.ok THEN st.f.recs ELSE <<>>)
PublishRun(e) ==
  /\ e.lat = st.lat /\ e.prv = st.prv
  /\ (e.ret = 0) = (st.ok /\ st.doc # "-")
  /\ e.doc = (IF e.ret = 0 THEN Published(st.doc, st.f) ELSE st.doc)
Ok(e) == CASE e.op \in {"reset", "edit", "doc"} -> TRUE
           [] e.op = "bench" -> BenchRun(e)
           [] e.op = "publish" -> PublishRun(e)
After(e) ==
  CASE e.op = "reset" -> Start
    [] e.op = "edit" -> [st EXCEPT !.lat = e.lat, !.ok = e.ok, !.f = [env |-> e.env, recs |-> e.recs]]
    [] e.op = "doc" -> [st EXCEPT !.doc = e.doc]
    [] e.op = "bench" -> [lat |-> e.lat, ok |-> TRUE, f |-> [env |-> e.env, recs |-> e.recs], prv |-> e.prv, doc |-> e.doc]
    [] e.op = "publish" -> [st EXCEPT !.doc = e.doc]
Init == l = 1 /\ st = Start
Next == l <= Len(Ev) /\ Ok(Ev[l]) = TRUE /\ l' = l + 1 /\ st' = After(Ev[l])
Spec == Init /\ [][Next]_<<l, st>>
Accepted == LET d == TLCGet("stats").diameter
            IN IF d - 1 = Len(Ev) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================
