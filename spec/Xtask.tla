------------------------------- MODULE Xtask -------------------------------
(* Design model: every machine description of a small universe, and every   *)
(* run of the helper on it, step by step: read, configure, start programs.   *)
EXTENDS XtaskOps
CONSTANTS Archs, FlagSets, Nps, Extras, Tasks, Statuses
VARIABLES m, cfg, task, todo, ran, code, pc
vars == <<m, cfg, task, todo, ran, code, pc>>
Init == /\ m \in [arch : Archs, flags : FlagSets, np : Nps, extra : Extras]
        /\ cfg = [features |-> <<>>, rustflags |-> None, example |-> None]
        /\ task = "" /\ todo = <<>> /\ ran = <<>> /\ code = -1 /\ pc = "read"
\* the configuration is built feature by feature
Configure == /\ pc = "read" /\ pc' = "ready"
             /\ cfg' = Config(m.arch, Join(m.flags), m.np, m.extra)
             /\ UNCHANGED <<m, task, todo, ran, code>>
Start == /\ pc = "ready" /\ pc' = "run" /\ \E t \in Tasks : task' = t /\ todo' = Steps(t)
         /\ UNCHANGED <<m, cfg, ran, code>>
Run == /\ pc = "run" /\ todo # <<>>
       /\ \E s \in Statuses :
            /\ ran' = Append(ran, <<todo[1], s>>)
            /\ IF s # 0 \/ Len(todo) = 1 THEN todo' = <<>> /\ code' = Code(s) ELSE todo' = Tail(todo) /\ code' = code
       /\ UNCHANGED <<m, cfg, task, pc>>
Next == Configure \/ Start \/ Run
Spec == Init /\ [][Next]_vars

F == {cfg.features[i] : i \in DOMAIN cfg.features}
Ready == pc # "read"
OneArch == Ready /\ Words(m.extra) = <<>> => Cardinality(F \cap {"x86_64", "aarch64"}) <= 1
OneIsa == Ready /\ Words(m.extra) = <<>> => Cardinality(F \cap {"avx512", "avx2", "sse"}) <= 1
Best == Ready => /\ ("avx512" \in F /\ Words(m.extra) = <<>>) = (IsX86(m.arch) /\ InSeq("avx512f", m.flags) /\ Words(m.extra) = <<>>)
                 /\ (cfg.rustflags # None) => IsX86(m.arch)
                 /\ cfg.rustflags # None => \E f \in {"avx512", "avx2"} : f \in F
Par == Ready => /\ (m.np > 1 => "parallel" \in F)
                /\ (cfg.example = "parallel_benchmark") = ("parallel" \in F)
Clean == Ready => \A i \in DOMAIN cfg.features : cfg.features[i] # "" /\ \A b \in Blanks : ~HasText(cfg.features[i], b)
Extra == Ready => LET w == Words(m.extra) IN Len(cfg.features) >= Len(w)
                  /\ SubSeq(cfg.features, Len(cfg.features) - Len(w) + 1, Len(cfg.features)) = w
\* joining and splitting the features argument loses nothing
OneArg == Ready => Words(Join(cfg.features)) = cfg.features
\* the closed form of a run used by the trace specification
RunForm == (code # -1) => LET st == [i \in DOMAIN ran |-> ran[i][2]] IN
              /\ Started(task, st) = [i \in DOMAIN ran |-> ran[i][1]]
              /\ Exit(task, st) = code
ParsesBack == Ready => \A k \in {"build", "test", "benchmark"} :
                 LET w == Cmd(cfg, k, "", "")
                     seq == SetToSeq(w.opts)
                     args == <<w.sub>> \o FlattenSeq([i \in DOMAIN seq |-> IF seq[i][1] \in Valued THEN <<seq[i][1], seq[i][2]>> ELSE <<seq[i][1]>>])
                 IN CmdOk(w.prog, args, w.rf, w)
=============================================================================
