----------------------------- MODULE TrigLemmas -----------------------------
(* Design-level facts about the definitions in Trig.tla: for every length   *)
(* n <= MaxN and every pair (p, q), composing the transforms that the       *)
(* library documents as mutually inverse gives the stated multiple of the   *)
(* identity, (R2 o R1)[p, q] = factor * delta(p, q).  One state per triple. *)
EXTENDS Trig
CONSTANT MaxN
D == JsonDeserialize(IOEnv.TRACE)
Tab(n) == D.tabs[ToString(n)]
ASSUME \A k \in DOMAIN D.tabs : TableOk(Len(D.tabs[k].c), D.tabs[k]) /\ k = ToString(Len(D.tabs[k].c))
VARIABLES n, p, q
vars == <<n, p, q>>
Init == n = 1 /\ p = 0 /\ q = 0
Next == IF q < n - 1 THEN q' = q + 1 /\ UNCHANGED <<n, p>>
        ELSE IF p < n - 1 THEN q' = 0 /\ p' = p + 1 /\ n' = n
        ELSE n < MaxN /\ n' = n + 1 /\ p' = 0 /\ q' = 0
Spec == Init /\ [][Next]_vars
\* coefficients at 10^-4 so that products fit
C4(r, i, k) == LET v == Coef(r, n, i, k, Tab(TabLen(r, n))) IN IF v >= 0 THEN (v + 50) \div 100 ELSE -((50 - v) \div 100)
Comp(r1, r2) == FoldLeft(LAMBDA a, k : a + C4(r1, p, k) * C4(r2, k, q), 0, [k \in 1..n |-> k - 1])
\* factor2 is twice the factor
Is(r1, r2, factor2) == Abs(Comp(r1, r2) - (IF p = q THEN factor2 * 50000000 ELSE 0)) <= n * 60000
Inverse23 == Is("dct2", "dct3", n) /\ Is("dst2", "dst3", n)
Self4 == Is("dct4", "dct4", n) /\ Is("dst4", "dst4", n)
Self1 == Is("dst1", "dst1", n + 1) /\ (n > 1 => Is("dct1", "dct1", 4 * (n - 1)))
SelfH == Is("dht", "dht", 2 * n)
=============================================================================
