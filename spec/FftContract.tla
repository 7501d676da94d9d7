---------------------------- MODULE FftContract ----------------------------
(* What every FFT entry point of kofft promises, stated over one call.      *)
(* A call record e carries: op, p (precision), kind (scal|fac|plan), r (the *)
(* entry point), n (input length), x (sparse input), the shape arguments of *)
(* that entry point, and the logged result (ret, yr, yi, ...).              *)
EXTENDS Dft

IsPow2(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1048576}

InvRoutes == {"ifft", "ioop", "istrided", "istralloc", "ioostr", "isplit", "ivec", "icv",
            "plan_icv", "ipar", "ifreesplit", "isplitc", "istack", "ifft64"}
FwdRoutes == {"fft", "oop", "strided", "stralloc", "oostr", "radix2", "radix4s", "splitradix",
            "auto", "split", "stockham", "radix4", "vec", "mixed", "tw2", "tw4", "twm", "cv",
            "plan_cv", "par", "freesplit", "splitc", "stack"}
Dir(r) == IF r \in InvRoutes THEN -1 ELSE 1
\* entry points that leave their input alone and write elsewhere
OutOfPlace == {"oop", "ioop", "oostr", "ioostr", "vec", "ivec"}
SplitForm == {"split", "isplit", "freesplit", "ifreesplit", "splitc", "isplitc"}
InStrided == {"strided", "istrided", "stralloc", "istralloc"}
OutStrided == {"oostr", "ioostr"}
StackForm == {"stack", "istack"}

\* number of points actually transformed
Pts(e) == IF e.r \in {"strided", "istrided"} THEN e.sl
          ELSE IF e.r \in {"stralloc", "istralloc"} \cup OutStrided THEN e.n \div e.st
          ELSE e.n
InStride(e) == IF e.r \in InStrided \cup OutStrided THEN e.st ELSE 1
OutStride(e) == IF e.r \in InStrided THEN e.st ELSE IF e.r \in OutStrided THEN e.ost ELSE 1
OutLen(e) == IF e.r \in {"oop", "ioop", "oostr", "ioostr"} THEN e.ol ELSE e.n

SizeRet(n, r, nostd) ==
  IF n = 0 THEN "EmptyInput"
  ELSE IF (nostd \/ r \in StackForm) /\ ~IsPow2(n) THEN "NonPowerOfTwoNoStd" ELSE "ok"

SizeFaults(n, r, nostd) == {SizeRet(n, r, nostd)} \ {"ok"}
\* what is wrong with a call; pn is the length the plan was made for
Faults(e, pn, nostd) ==
  LET n == e.n
      mism(b) == Fault(b, "MismatchedLengths")
  IN
  CASE e.kind = "plan" ->
         mism(n # pn) \cup mism(e.r \in {"oop", "ioop"} /\ e.ol # pn)
         \cup mism(e.r \in {"split", "isplit"} /\ e.il # pn) \cup SizeFaults(n, e.r, nostd)
    [] e.r \in SplitForm -> mism(e.il # n) \cup SizeFaults(n, e.r, nostd)
    [] e.r \in {"oop", "ioop"} -> mism(e.ol # n) \cup SizeFaults(n, e.r, nostd)
    [] e.r \in {"strided", "istrided"} ->
         IF e.st = 0 THEN {"InvalidStride"}
         ELSE IF e.sl = 0 THEN {}
         ELSE mism(e.sl > 1 /\ (n = 0 \/ e.st > (n - 1) \div (e.sl - 1))) \cup mism(e.sl = 1 /\ n = 0)
              \cup SizeFaults(e.sl, e.r, nostd)
    [] e.r \in {"stralloc", "istralloc"} ->
         IF e.st = 0 THEN {"InvalidStride"}
         ELSE IF n \div e.st = 0 THEN {} ELSE SizeFaults(n \div e.st, e.r, nostd)
    [] e.r \in OutStrided ->
         IF e.st = 0 \/ e.ost = 0 THEN {"InvalidStride"}
         ELSE Fault(n % e.st # 0 \/ e.ol % e.ost # 0, "InvalidStride")
              \cup mism(n \div e.st # e.ol \div e.ost) \cup SizeFaults(n \div e.st, e.r, nostd)
    [] OTHER -> SizeFaults(n, e.r, nostd)

\* the strided view of the input as a signal of Pts(e) points
View(e) ==
  LET st == InStride(e)  n == Pts(e)
  IN IF st = 1 /\ n = e.n THEN e.x
     ELSE LET s == SelectSeq(e.x, LAMBDA t : t[1] % st = 0 /\ t[1] \div st < n)
          IN [i \in DOMAIN s |-> <<s[i][1] \div st, s[i][2], s[i][3]>>]

\* value of the raw input at position p
RawAt(e, p) ==
  LET s == SelectSeq(e.x, LAMBDA t : t[1] = p)
  IN IF s = <<>> THEN <<0, 0>> ELSE <<s[1][2], s[1][3]>>

\* what must be left at output position p outside the transformed points
Rest(e, p) == IF e.r \in OutStrided THEN <<e.pf, -e.pf>> ELSE RawAt(e, p)

\* The full promise about the output buffer of a successful call.
\* ks lists the examined positions;
\* W(k) must yield the value of bin k of the transform of v (a Bin tuple).
OutputOk(e, v, l1, ks, W(_)) ==
  LET n  == Pts(e)
      st == OutStride(e)
      ol == OutLen(e)
  IN /\ e.len = ol
     /\ Len(e.yr) = Len(ks) /\ Len(e.yi) = Len(ks)
     /\ \A q \in DOMAIN ks :
          LET p == ks[q]
              g == Got(e, q)
          IN IF n > 0 /\ p % st = 0 /\ p \div st < n
             THEN IF n = 1 THEN LET w == IF v = <<>> THEN <<0, 0>> ELSE <<v[1][2], v[1][3]>>
                                IN ConstOk(g, w[1], w[2])
                  ELSE ValueOk(g, W(p \div st), n, Dir(e.r), l1)
             ELSE LET w == Rest(e, p) IN ConstOk(g, w[1], w[2])

\* refusals about the buffers themselves: nothing is written at all, the output buffer included
ArgErr == {"EmptyInput", "MismatchedLengths", "InvalidStride", "InvalidValue"}
\* a refused call leaves the caller's data alone; a call that works out of place never touches its input
InputOk(e) ==
  /\ e.r \in {"oop", "ioop", "oostr", "ioostr"} => e.insame
  /\ (e.ret \in ArgErr /\ e.r \in {"oop", "ioop", "oostr", "ioostr"}) => e.outsame
  /\ (e.ret # "ok" /\ e.r \notin {"oop", "ioop", "oostr", "ioostr"}
        /\ ~(e.r \in SplitForm /\ e.il < e.n)) => e.same
  /\ (e.ret = "ok" /\ e.r \in {"vec", "ivec"}) => e.insame

=============================================================================
