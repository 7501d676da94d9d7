------------------------------- MODULE SongOps -------------------------------
(* What one call on a song index does.  An index is a record [nm, hs]: the   *)
(* song stored under each file name and under each content.  A song is the   *)
(* path it was stored under.  A call is given the path, the file name in it  *)
(* (NoName when the path has none that is text) and the content of the file  *)
(* at the moment of the call (NoFile when it cannot be read).  The result of *)
(* a call is <<answer, index afterwards>>; the answer IoErr is an error.     *)
EXTENDS TLC
NoName == ""
NoFile == "!"
IoErr == "-"
Empty == [nm |-> <<>>, hs |-> <<>>]
Bind(f, k, v) == (k :> v) @@ f
\* store the path under its name (if it has one) and under its content
Store(ix, p, n, c) == [nm |-> IF n = NoName THEN ix.nm ELSE Bind(ix.nm, n, p), hs |-> Bind(ix.hs, c, p)]
Index(ix, p, n, c) == IF c = NoFile THEN <<IoErr, ix>> ELSE <<p, Store(ix, p, n, c)>>
Identify(ix, p, n, c) ==
  IF n # NoName /\ n \in DOMAIN ix.nm THEN <<ix.nm[n], ix>>
  ELSE IF c = NoFile THEN <<IoErr, ix>>
  ELSE IF c \in DOMAIN ix.hs THEN <<ix.hs[c], ix>>
  ELSE <<p, Store(ix, p, n, c)>>
=============================================================================
