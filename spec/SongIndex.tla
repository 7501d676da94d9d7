------------------------------ MODULE SongIndex ------------------------------
(* Design model: one song index over a directory tree whose files are        *)
(* written, rewritten, removed and made unreadable between calls.            *)
(* last is the last call and its answer; stored the songs ever stored.       *)
(* Every transition is printed, so that a tour of all of them can be         *)
(* replayed on the real index.                                               *)
EXTENDS SongOps, Naturals, FiniteSets, Sequences, Json
CONSTANTS Paths,     \* sequence of <<path, name>>
          Contents, Emit
VARIABLES disk, ix, last, stored
vars == <<disk, ix, last, stored>>
P == {Paths[i][1] : i \in DOMAIN Paths}
NameOf == [p \in P |-> Paths[CHOOSE i \in DOMAIN Paths : Paths[i][1] = p][2]]
Names == {NameOf[p] : p \in P} \ {NoName}

Show(d, x) == [d |-> [i \in DOMAIN Paths |-> d[Paths[i][1]]],
               n |-> [n \in DOMAIN x.nm |-> x.nm[n]], h |-> [c \in DOMAIN x.hs |-> x.hs[c]]]
Out(op, p, c) == Emit => PrintT("EDGE " \o ToJson([f |-> Show(disk, ix), t |-> Show(disk', ix'), o |-> <<op, p, c>>]))
Init == disk = [p \in P |-> NoFile] /\ ix = Empty /\ last = <<>> /\ stored = {}
Write(p, c) == /\ disk' = [disk EXCEPT ![p] = c] /\ disk[p] # c
               /\ last' = <<>> /\ UNCHANGED <<ix, stored>> /\ Out("write", p, c)
Call(op, p) ==
  LET r == IF op = "index" THEN Index(ix, p, NameOf[p], disk[p]) ELSE Identify(ix, p, NameOf[p], disk[p])
  IN /\ ix' = r[2] /\ last' = <<op, p, r[1]>>
     /\ stored' = stored \cup (IF r[2] # ix \/ (op = "index" /\ r[1] # IoErr) THEN {p} ELSE {})
     /\ UNCHANGED disk /\ Out(op, p, "")
Next == \E p \in P : (\E c \in Contents \cup {NoFile} : Write(p, c)) \/ Call("index", p) \/ Call("identify", p)
Spec == Init /\ [][Next]_vars
View == <<disk, ix>>

Songs(f) == {f[k] : k \in DOMAIN f}
\* no entry is ever lost, and only explicit indexing rebinds one
Kept == [][/\ DOMAIN ix.nm \subseteq DOMAIN ix'.nm /\ DOMAIN ix.hs \subseteq DOMAIN ix'.hs
           /\ (last' # <<>> /\ last'[1] = "identify") =>
                /\ \A n \in DOMAIN ix.nm : ix'.nm[n] = ix.nm[n]
                /\ \A c \in DOMAIN ix.hs : ix'.hs[c] = ix.hs[c]]_vars
\* every answer is a song that was stored explicitly or by an identification
Known == Songs(ix.nm) \cup Songs(ix.hs) \subseteq stored
\* an error changes nothing and happens only for files that cannot be read
ErrPure == [][(last' # <<>> /\ last'[3] = IoErr) => ix' = ix /\ disk[last'[2]] = NoFile]_vars
\* identifying again gives the same answer, whatever happens to the files, once the name is stored
Stable == (last # <<>> /\ last[3] # IoErr) =>
            LET p == last[2]  again == Identify(ix, p, NameOf[p], disk[p]) IN
            /\ again = <<last[3], ix>>
            /\ (NameOf[p] # NoName /\ NameOf[p] \in DOMAIN ix.nm) => Identify(ix, p, NameOf[p], NoFile) = <<last[3], ix>>
\* after indexing p both its name and its content lead to p
Bound == (last # <<>> /\ last[1] = "index" /\ last[3] # IoErr) =>
           LET p == last[2] IN /\ last[3] = p /\ ix.hs[disk[p]] = p
                               /\ NameOf[p] # NoName => ix.nm[NameOf[p]] = p
=============================================================================
