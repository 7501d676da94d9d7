----------------------------- MODULE TraceXtask -----------------------------
(* Trace specification of the build helper: configurations computed from     *)
(* descriptions, configurations detected on a (prepared) machine with the    *)
(* commands built from them, and complete runs with recorded programs.       *)
EXTENDS XtaskOps, Json, IOUtils
D == JsonDeserialize(IOEnv.TRACE)
Ev == D.events
VARIABLE l
CfgOk(e, c) == /\ e.features = c.features /\ e.rustflags = c.rustflags /\ e.example = c.example
               /\ e.farg = IF c.features = <<>> THEN None ELSE Join(c.features)
EnvRf(env) == IF env = <<>> THEN None
              ELSE IF Len(env) = 1 /\ Len(env[1]) > 10 /\ SubSeq(env[1], 1, 10) = "RUSTFLAGS=" THEN SubSeq(env[1], 11, Len(env[1])) ELSE "?"
Keys == {"build", "test", "clippy", "fmt", "benchmark", "bench_libs", "update_bench_readme", "sanity"}
CmdsOk(e, c) ==
  /\ \A k \in Keys : CmdOk(e[k \o "_prog"], e[k \o "_args"], EnvRf(e[k \o "_env"]), Cmd(c, k, "in file.wav", "out.png"))
  /\ e.web_prog = "sh" /\ Len(e.web_args) = 2 /\ e.web_args[1] = "-c" /\ e.web_env = <<>>
ShellOk(r) == r.prog = "sh" /\ Len(r.args) = 2 /\ r.args[1] = "-c" /\ r.rf = None
Machine(e) == [arch |-> e.arch, uname |-> e.uname, haslscpu |-> e.haslscpu, lscpu |-> e.lscpu, sysctl |-> e.sysctl, np |-> e.np, extra |-> e.extra]
Main(e) ==
  IF e.op2 = "missing" THEN e.runs = <<>> /\ e.ret = 1    \* no program can be started
  ELSE LET c == Detected(Machine(e))  want == Started(e.task, e.st) IN
  /\ Len(e.runs) = Len(want)
  /\ \A i \in DOMAIN want : IF want[i] = "web" THEN ShellOk(e.runs[i])
                            ELSE CmdOk(e.runs[i].prog, e.runs[i].args, e.runs[i].rf, Cmd(c, want[i], e.in, e.out))
  /\ e.ret = Exit(e.task, e.st)
Ok(e) == CASE e.op = "reset" -> TRUE
           [] e.op = "xtask" /\ e.r = "compute" -> LET c == Config(e.arch, e.flags, e.np, e.extra) IN e.ret = "ok" /\ CfgOk(e, c) /\ CmdsOk(e, c)
           [] e.op = "xtask" /\ e.r = "detect" -> LET c == Detected(Machine(e)) IN e.ret = "ok" /\ CfgOk(e, c) /\ CmdsOk(e, c)
           [] e.op = "main" -> Main(e)
Init == l = 1
Next == l <= Len(Ev) /\ Ok(Ev[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == LET d == TLCGet("stats").diameter
            IN IF d - 1 = Len(Ev) THEN TRUE ELSE Print(<<"REJECTED", d>>, FALSE)
=============================================================================
