----------------------------- MODULE TraceSong -----------------------------
(* Trace specification of song indexes: a log of file operations and calls  *)
(* on two indexes must be a behaviour of the index semantics in SongOps.    *)
EXTENDS SongOps, Integers, Sequences, Json, IOUtils
D == JsonDeserialize(IOEnv.TRACE)
Ev == D.events
VARIABLES l, disk, ix
vars == <<l, disk, ix>>
Objs == {"a", "b"}
Fresh == [o \in Objs |-> Empty]
Content(p) == IF p \in DOMAIN disk THEN disk[p] ELSE NoFile
Call(e) == LET c == Content(e.path)
           IN IF e.op = "song_index" THEN Index(ix[e.o], e.path, e.nm, c) ELSE Identify(ix[e.o], e.path, e.nm, c)
CallOk(e) == LET r == Call(e) IN /\ e.song = r[1] /\ e.ret = (IF r[1] = IoErr THEN "io" ELSE "ok")
Ok(e) == IF e.op \in {"song_index", "song_identify"} THEN CallOk(e) ELSE e.op = "reset" \/ e.ret = "ok"
Disk(e) == CASE e.op = "reset" -> <<>>
             [] e.op = "song_write" -> Bind(disk, e.path, e.key)
             [] e.op = "song_remove" -> Bind(disk, e.path, NoFile)
             [] e.op = "song_move" -> Bind(Bind(disk, e.to, Content(e.path)), e.path, NoFile)
             [] OTHER -> disk
Ix(e) == CASE e.op \in {"reset", "song_setup"} -> Fresh
           [] e.op \in {"song_index", "song_identify"} -> [ix EXCEPT ![e.o] = Call(e)[2]]
           [] OTHER -> ix
Init == l = 1 /\ disk = <<>> /\ ix = Fresh
Next == /\ l <= Len(Ev)
        /\ Ok(Ev[l]) = TRUE
        /\ disk' = Disk(Ev[l]) /\ ix' = Ix(Ev[l])
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == LET d == TLCGet("stats").diameter
            IN IF d - 1 = Len(Ev) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================
