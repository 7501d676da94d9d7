------------------------------ MODULE Colours ------------------------------
(* Colour maps at t = k/d, 0 <= k <= d.                                     *)
EXTENDS Num
Stop(t, r, g, b) == [t |-> t, c |-> <<r, g, b>>]     \* t in hundredths
Stops(m) ==
  CASE m = "Fire" -> <<Stop(0, 0, 0, 0), Stop(25, 128, 0, 128), Stop(50, 255, 165, 0), Stop(75, 255, 255, 0), Stop(100, 255, 255, 255)>>
    [] m = "Rainbow" -> <<Stop(0, 0, 0, 0), Stop(25, 0, 0, 255), Stop(50, 0, 255, 255), Stop(75, 255, 255, 0), Stop(90, 255, 0, 0), Stop(100, 255, 255, 255)>>
    [] m = "Legacy" -> <<Stop(0, 64, 0, 64), Stop(100, 255, 255, 224)>>
    [] m = "Gray" -> <<Stop(0, 0, 0, 0), Stop(100, 255, 255, 255)>>
Linear == {"Fire", "Rainbow", "Legacy", "Gray"}
\* end colours of the perceptual maps
Ends(m) == CASE m = "Viridis" -> <<<<68, 1, 84>>, <<253, 231, 37>>>>
             [] m = "Plasma" -> <<<<13, 8, 135>>, <<240, 249, 33>>>>
             [] m = "Inferno" -> <<<<0, 0, 4>>, <<252, 255, 164>>>>
\* linear interpolation between the surrounding stops, to within one step
ColourOk(m, k, d, c) ==
  LET S == Stops(m)
      i == CHOOSE j \in 1..(Len(S) - 1) : S[j].t * d <= 100 * k /\ 100 * k <= S[j + 1].t * d
      num == 100 * k - S[i].t * d
      den == (S[i + 1].t - S[i].t) * d
  IN \A q \in 1..3 : LET a == S[i].c[q]  b == S[i + 1].c[q]
                         v == (a * den + (b - a) * num) \div den
                     IN c[q] \in {v, v + 1} \/ (num # 0 /\ num # den /\ c[q] = v - 1)
InRange(c) == Len(c) = 3 /\ \A q \in 1..3 : c[q] \in 0..255
\* Palette names are compared ignoring ASCII case: lc is the name in lower case, every other text is the default map.
NameOf(lc) == CASE lc = "legacy" -> "Legacy" [] lc = "gray" -> "Gray" [] lc = "viridis" -> "Viridis" [] lc = "plasma" -> "Plasma"
                [] lc = "inferno" -> "Inferno" [] lc = "rainbow" -> "Rainbow" [] OTHER -> "Fire"
=============================================================================
