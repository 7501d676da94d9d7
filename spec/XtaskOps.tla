------------------------------ MODULE XtaskOps ------------------------------
(* The build helper: what it reads off a machine description, which          *)
(* configuration follows from it, which commands it generates and what a run *)
(* of the helper does.                                                       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

HasText(s, t) == \E i \in 0..(Len(s) - Len(t)) : SubSeq(s, i + 1, i + Len(t)) = t
Blanks == {" ", "\t", "\n", "\r", "\f"}
Ch(s, i) == SubSeq(s, i, i)
\* the maximal runs of characters that are not blanks, in order
Words(s) ==
  LET step(a, i) == LET c == Ch(s, i) IN
        IF c \in Blanks THEN (IF a[2] = "" THEN a ELSE <<Append(a[1], a[2]), "">>) ELSE <<a[1], a[2] \o c>>
      r == FoldLeft(step, <<<<>>, "">>, [i \in 1..Len(s) |-> i])
  IN IF r[2] = "" THEN r[1] ELSE Append(r[1], r[2])
\* string without leading and trailing blanks
Trim(s) == LET K == {i \in 1..Len(s) : Ch(s, i) \notin Blanks} IN
           IF K = {} THEN "" ELSE SubSeq(s, CHOOSE i \in K : \A j \in K : i <= j, CHOOSE i \in K : \A j \in K : j <= i)
RECURSIVE Join(_)
Join(ws) == IF ws = <<>> THEN "" ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o " " \o Join(Tail(ws))
InSeq(x, s) == \E i \in DOMAIN s : s[i] = x

\* ------------------------------------------------------------ configuration
None == "-"
IsX86(arch) == HasText(arch, "x86_64")
IsArm(arch) == ~IsX86(arch) /\ (HasText(arch, "aarch64") \/ HasText(arch, "arm64"))
Isa(arch, flags) == IF ~IsX86(arch) THEN None
                    ELSE IF HasText(flags, "avx512f") THEN "avx512"
                    ELSE IF HasText(flags, "avx2") THEN "avx2"
                    ELSE IF HasText(flags, "sse4_1") THEN "sse" ELSE None
One(x) == IF x = None THEN <<>> ELSE <<x>>
Config(arch, flags, np, extra) ==
  LET isa == Isa(arch, flags)
      fs == One(IF IsX86(arch) THEN "x86_64" ELSE IF IsArm(arch) THEN "aarch64" ELSE None) \o One(isa)
            \o One(IF np > 1 THEN "parallel" ELSE None) \o Words(extra)
  IN [features |-> fs,
      rustflags |-> CASE isa = "avx512" -> "-C target-feature=+avx512f,+fma"
                      [] isa = "avx2" -> "-C target-feature=+avx2,+fma" [] OTHER -> None,
      example |-> IF InSeq("parallel", fs) THEN "parallel_benchmark" ELSE "benchmark"]

\* ---------------------------------------------------------------- commands
\* a command: program, subcommand, options (in any order), what follows `--`, RUSTFLAGS
Opt(o, v) == <<o, v>>
Feat(c) == IF c.features = <<>> THEN {} ELSE {Opt("--features", Join(c.features))}
Cargo(sub, opts, rest, rf) == [prog |-> "cargo", sub |-> sub, opts |-> opts, rest |-> rest, rf |-> rf]
BenchToml == Opt("--manifest-path", "kofft-bench/Cargo.toml")
Cmd(c, k, in, out) ==
  CASE k = "build" -> Cargo("build", Feat(c), <<>>, None)
    [] k = "test" -> Cargo("test", Feat(c), <<>>, None)
    [] k = "clippy" -> Cargo("clippy", {Opt("--all-targets", ""), Opt("--all-features", "")}, <<>>, None)
    [] k = "fmt" -> Cargo("fmt", {Opt("--all", "")}, <<>>, None)
    [] k = "benchmark" -> Cargo("run", {Opt("--example", c.example), Opt("--release", "")} \cup Feat(c), <<>>, c.rustflags)
    [] k = "bench_libs" -> Cargo("bench", {BenchToml} \cup Feat(c), <<>>, c.rustflags)
    [] k = "update_bench_readme" ->
         Cargo("run", {BenchToml, Opt("--example", "update_bench_readme"), Opt("--release", "")} \cup Feat(c), <<>>, c.rustflags)
    [] k = "sanity" -> Cargo("run", {Opt("--release", ""), Opt("-p", "sanity-check")}, <<in, out>>, None)
\* arguments as given -> subcommand, options, rest
Valued == {"--features", "--example", "--manifest-path", "-p"}
Canon(a) == CASE a = "-r" -> "--release" [] a = "--package" -> "-p" [] a = "-F" -> "--features" [] OTHER -> a
Parse(args) ==
  LET step(st, a0) ==
        IF st.dash THEN [st EXCEPT !.rest = Append(@, a0)]
        ELSE IF st.want # "" THEN [st EXCEPT !.opts = Append(@, Opt(st.want, a0)), !.want = ""]
        ELSE LET a == Canon(a0) IN
             IF a = "--" THEN [st EXCEPT !.dash = TRUE]
             ELSE IF a \in Valued THEN [st EXCEPT !.want = a]
             ELSE [st EXCEPT !.opts = Append(@, Opt(a, ""))]
  IN FoldLeft(step, [opts |-> <<>>, rest |-> <<>>, dash |-> FALSE, want |-> ""], Tail(args))
CmdOk(prog, args, rf, want) ==
  /\ prog = want.prog
  /\ args # <<>> /\ args[1] = want.sub
  /\ LET p == Parse(args) IN
       /\ p.want = "" /\ p.rest = want.rest
       /\ {p.opts[i] : i \in DOMAIN p.opts} = want.opts /\ Len(p.opts) = Cardinality(want.opts)
  /\ rf = want.rf

\* ---------------------------------------------------------------- detection
\* a machine: ARCH setting, uname's answer, lscpu's lines (with which of them list flags), sysctl's answer
Arch(m) == IF Trim(m.arch) # "" THEN m.arch ELSE Trim(m.uname)
Flags(m) == LET K == {i \in DOMAIN m.lscpu : m.lscpu[i].isf} IN
            IF m.haslscpu /\ K # {} THEN m.lscpu[CHOOSE i \in K : \A j \in K : i <= j].text
            ELSE m.sysctl
Detected(m) == Config(Arch(m), Flags(m), m.np, m.extra)

\* ---------------------------------------------------------------- a run of the helper
\* the programs it starts, one after the other; analyze stops when formatting fails
Steps(task) == IF task = "analyze" THEN <<"fmt", "clippy">> ELSE <<task>>
\* st: the exit status of each program started (256: killed), 512: could not be started
Code(s) == IF s >= 256 THEN 1 ELSE s
RECURSIVE Ran(_, _)
Ran(steps, st) == IF Len(steps) = 1 \/ st[1] # 0 THEN 1 ELSE 1 + Ran(Tail(steps), Tail(st))
Started(task, st) == SubSeq(Steps(task), 1, Ran(Steps(task), st))
Exit(task, st) == Code(st[Ran(Steps(task), st)])
=============================================================================
