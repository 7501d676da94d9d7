------------------------------- MODULE WebOps -------------------------------
(* The browser spectrogram: rows streamed from samples, the file a request   *)
(* is answered with, the picture of a matrix of magnitudes.                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
\* is the next row complete, after n samples and r rows?
Complete(n, r, win, hop) == n - r * hop >= win

\* A request for the segments s (decoded, "" and "." without meaning) below a folder whose files are the
\* sequences in `files`.  slash: the path ends in "/".
Dirs(files) == {SubSeq(f, 1, k) : f \in files, k \in 0..8} \ files
Plain(s) == SelectSeq(s, LAMBDA x : x # "" /\ x # ".")
Index(files) == IF <<"index.html">> \in files THEN [kind |-> "file", of |-> <<"index.html">>] ELSE [kind |-> "none", of |-> <<>>]
Resolve(files, s, slash) ==
  LET p == Plain(s) IN
  IF \E i \in DOMAIN s : s[i] = ".." THEN Index(files)
  ELSE IF p \in files THEN [kind |-> "file", of |-> p]
  ELSE IF \E f \in files : Len(f) > Len(p) /\ SubSeq(f, 1, Len(p)) = p
       THEN IF ~slash THEN [kind |-> "redirect", of |-> p]
            ELSE IF Append(p, "index.html") \in files THEN [kind |-> "file", of |-> Append(p, "index.html")] ELSE Index(files)
  ELSE Index(files)
=============================================================================
