--------------------------- MODULE WaveletLemmas ---------------------------
(* Design-level facts about Wavelets.tla.  One state per (wavelet, length,  *)
(* impulse position): the filters are orthonormal with a vanishing moment,  *)
(* analysis followed by synthesis reproduces every interior sample of every *)
(* unit impulse, and several levels of Haar reproduce it everywhere.        *)
EXTENDS Wavelets
CONSTANTS MaxN
VARIABLES w, n, p
vars == <<w, n, p>>
Init == w \in Filtered \cup {"haar"} /\ n = 2 /\ p = 0
Next == /\ w' = w
        /\ IF p < n - 1 THEN p' = p + 1 /\ n' = n ELSE n < MaxN /\ n' = n + 1 /\ p' = 0
Spec == Init /\ [][Next]_vars
Imp == [i \in 1..n |-> IF i = p + 1 THEN M6 ELSE 0]
R3(v) == IF v >= 0 THEN (v + 500) \div 1000 ELSE -((500 - v) \div 1000)
Ortho ==
  w # "haar" =>
    LET h == Low(w)  g == High(w)  L == Len(h)
        Dot(a, b, s) == FoldLeft(LAMBDA acc, k : IF k + s \in 1..L THEN acc + R3(a[k]) * R3(b[k + s]) ELSE acc, 0, [k \in 1..L |-> k])
        Sum(a) == FoldLeft(LAMBDA acc, v : acc + v, 0, a)
    IN /\ \A s \in {0, 2, 4, 6} : /\ Abs(Dot(h, h, s) - (IF s = 0 THEN 100000000 ELSE 0)) <= 60000
                                  /\ Abs(Dot(g, g, s) - (IF s = 0 THEN 100000000 ELSE 0)) <= 60000
                                  /\ Abs(Dot(h, g, s)) <= 60000 /\ Abs(Dot(g, h, s)) <= 60000
       /\ Abs(Sum(h) - 14142136) <= 40 /\ Abs(Sum(g)) <= 40
OneLevel ==
  LET f == TLCEval(Fwd(w, Imp))  y == TLCEval(Inv(w, f[1], f[2])) IN
  /\ Len(f[1]) = n \div 2 /\ Len(f[2]) = n \div 2 /\ Len(y) = 2 * (n \div 2)
  /\ \A t \in Interior(w, Len(y)) : Abs(y[t + 1] - Imp[t + 1]) <= 40
Levels ==
  w = "haar" => \A lv \in 0..4 :
    LET m == TLCEval(MultiFwd(w, Imp, lv))  y == TLCEval(MultiInv(w, m[1], m[2])) IN
    /\ Len(m[2]) = lv
    /\ Len(y) = (IF lv > 0 THEN 2 * ((n + 1) \div 2) ELSE n)
    /\ \A t \in 1..n : Abs(y[t] - Imp[t]) <= 8
=============================================================================
