-------------------------------- MODULE Gf ---------------------------------
(* The field GF(p^2) = GF(p)[i], i^2 = -1, p = 3 (mod 4), as exact stand-in *)
(* for the complex numbers.  Conjugation is the Frobenius map, and the      *)
(* elements of norm 1 form a cyclic group of order p+1, so for every n that *)
(* divides p+1 there are n-th roots of unity w with conj(w) = 1/w.  Every   *)
(* identity between FFT algorithms that uses only ring operations,          *)
(* conjugation and such roots holds here exactly when it holds over C for   *)
(* formal w; all algorithms are linear, so unit vectors decide all inputs.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS P, Gre, Gim
ASSUME P % 4 = 3

Zero == <<0, 0>>
One == <<1, 0>>
Add(a, b) == <<(a[1] + b[1]) % P, (a[2] + b[2]) % P>>
Sub(a, b) == <<(a[1] + P - b[1]) % P, (a[2] + P - b[2]) % P>>
Mul(a, b) == <<(a[1] * b[1] + P * P - a[2] * b[2]) % P, (a[1] * b[2] + a[2] * b[1]) % P>>
Conj(a) == <<a[1], (P - a[2]) % P>>
MulI(a) == <<(P - a[2]) % P, a[1]>>          \* times i
Sc(c, a) == <<(c * a[1]) % P, (c * a[2]) % P>>
InvMod(c) == CHOOSE d \in 1..(P - 1) : ((c % P) * d) % P = 1

Order == P + 1
\* all powers of the generator G of the norm-1 group (a constant: <<Gre, Gim>>), so that roots are table look-ups
PowTab == TLCEval(FoldLeft(LAMBDA acc, e : Append(acc, TLCEval(Mul(acc[Len(acc)], <<Gre, Gim>>))), <<One>>, [e \in 1..P |-> e]))
ASSUME GenOk == /\ (Gre * Gre + Gim * Gim) % P = 1
                /\ Mul(PowTab[Order], <<Gre, Gim>>) = One /\ \A e \in 2..Order : PowTab[e] # One
\* exp(-2 pi i e / n)
W(n, e) == PowTab[(((Order \div n) * (e % n)) % Order) + 1]
HalfP == (P + 1) \div 2

\* x[0] y(0) + ... + x[n-1] y(n-1), the two coordinates summed separately
SumC(f(_), n, c) == FoldLeft(LAMBDA acc, k : acc + f(k - 1)[c], 0, [k \in 1..n |-> k]) % P
SumF(f(_), n) == <<SumC(f, n, 1), SumC(f, n, 2)>>
\* definitions
Dft(x, n) == [k \in 0..(n - 1) |-> LET t(j) == Mul(x[j], W(n, j * k)) IN SumF(t, n)]
IDft(x, n) == [k \in 0..(n - 1) |-> LET t(j) == Mul(x[j], W(n, n - ((j * k) % n))) IN Sc(InvMod(n), SumF(t, n))]
Unit(n, j, u) == [i \in 0..(n - 1) |-> IF i = j THEN u ELSE Zero]
\* the transforms of a unit vector in closed form
DftUnit(n, j, u) == [k \in 0..(n - 1) |-> Mul(u, W(n, j * k))]
IDftUnit(n, j, u) == [k \in 0..(n - 1) |-> Sc(InvMod(n), Mul(u, W(n, n - ((j * k) % n))))]
=============================================================================
