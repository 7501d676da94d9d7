-------------------------------- MODULE Num --------------------------------
(* Fixed-point arithmetic used to state numeric contracts in TLA+.          *)
(* Reals are logged in units of 10^-6 (one limb) or as two limbs            *)
(* hi*10^-6 + lo*10^-12 with 0 <= lo < 10^6.  Inputs are small integers, so *)
(* every defining sum below is an exact integer sum over a table of         *)
(* cosines/sines; TLC raises an error on any 32-bit overflow.               *)
(* Values 2100000001..3 are the NaN / infinite / too-large sentinels.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils

M6 == 1000000
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
Sane(v) == v > -1100000000 /\ v < 1100000000

\* |a - b| <= t where a is a specification value (|a| <= 1.03e9), b a logged one
Near(a, b, t) == Sane(b) /\ Abs(a - b) <= t

\* two-limb version, tolerance in 10^-12 (t <= 10^9)
Near2(h, lo, gh, gl, t) ==
  LET a == h + (lo \div M6)
      b == lo % M6
  IN  Sane(gh) /\ Abs(a - gh) <= 1000 /\ Abs((a - gh) * M6 + (b - gl)) <= t

\* (h, lo) / n, rounded down, as a pair of limbs; lo need not be normalised
Div2(h, lo, n) ==
  LET a  == h + (lo \div M6)
      b  == lo % M6
      q  == a \div n
      r  == a % n
      t1 == r * 1000 + (b \div 1000)
      q1 == t1 \div n
      t2 == (t1 % n) * 1000 + (b % 1000)
  IN <<q, q1 * 1000 + (t2 \div n)>>

\* a * b / 10^6 (|a * b| < 2 * 10^15)
MulU(a, b) ==
  LET a1 == a \div 1000  a0 == a % 1000  b1 == b \div 1000  b0 == b % 1000
  IN a1 * b1 + (a1 * b0 + a0 * b1 + (a0 * b0) \div 1000) \div 1000
Mul6(a, b) == IF (a < 0) = (b < 0) THEN MulU(Abs(a), Abs(b)) ELSE -MulU(Abs(a), Abs(b))

\* integer square root (rounded down)
ISqrt(s) == FoldLeft(LAMBDA r, b : IF r + b <= 46340 /\ (r + b) * (r + b) <= s THEN r + b ELSE r, 0,
                     <<32768, 16384, 8192, 4096, 2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1>>)

Seq1(n) == [i \in 1..n |-> i]
IsIn(S, i, lo, hi) == \A k \in lo..hi : k \in S

\* does e carry field f
Has(e, f) == f \in DOMAIN e

Fault(b, name) == IF b THEN {name} ELSE {}
\* A call with nothing wrong answers ok, any other call answers with one of its faults: which one
\* is reported when there are several is not part of the contract.
Answers(ret, faults) == IF faults = {} THEN ret = "ok" ELSE ret \in faults

=============================================================================
