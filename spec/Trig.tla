-------------------------------- MODULE Trig --------------------------------
(* Cosine, sine and Hartley transforms of real signals, as integer sums over *)
(* a table of cosines/sines with TabLen(r, n) entries per turn.              *)
EXTENDS Dft

Base(r) == CASE r \in {"dct2", "slow2", "dct2p"} -> "dct2" [] r \in {"dct3", "slow3"} -> "dct3"
             [] r \in {"dct4", "slow4"} -> "dct4" [] r \in {"dst2", "dst2f"} -> "dst2" [] OTHER -> r
TabLen(r, n) ==
  CASE Base(r) = "dct1" -> IF n <= 1 THEN 1 ELSE 2 * (n - 1)
    [] Base(r) \in {"dct2", "dct3", "dst2", "dst3"} -> 4 * n
    [] Base(r) \in {"dct4", "dst4"} -> 8 * n
    [] Base(r) = "dst1" -> 2 * (n + 1)
    [] Base(r) = "dht" -> n
Sign(k) == IF k % 2 = 0 THEN 1 ELSE -1
\* weight of input i in output k, in units of 10^-6
Coef(r, n, i, k, T) ==
  LET N == TabLen(r, n)
      c(m) == T.c[(m % N) + 1]
      s(m) == T.s[(m % N) + 1]
      b == Base(r)
  IN CASE b = "dct1" -> IF n = 1 THEN 2 * M6 ELSE IF i = 0 THEN M6 ELSE IF i = n - 1 THEN Sign(k) * M6 ELSE 2 * c(i * k)
       [] b = "dct2" -> c((2 * i + 1) * k)
       [] b = "dct3" -> IF i = 0 THEN 500000 ELSE c(i * (2 * k + 1))
       [] b = "dct4" -> c((2 * i + 1) * (2 * k + 1))
       [] b = "dst1" -> s((i + 1) * (k + 1))
       [] b = "dst2" -> s((2 * i + 1) * (k + 1))
       [] b = "dst3" -> IF i = n - 1 THEN Sign(k) * 500000 ELSE s((i + 1) * (2 * k + 1))
       [] b = "dst4" -> s((2 * i + 1) * (2 * k + 1))
       [] b = "dht"  -> c(i * k) + s(i * k)
TrigAt(r, x, n, k, T) == FoldLeft(LAMBDA a, t : a + t[2] * Coef(r, n, t[1], k, T), 0, x)
\* naive sums evaluate the cosine of angles up to pi * n in single precision
TolTrig(l1, n) == 4 + 2 * l1 * (2 + (6 * n) \div 10)
=============================================================================
