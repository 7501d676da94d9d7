SPECIFICATION Spec
CONSTANTS
  P = 223
  Gre = 179
  Gim = 133
  Algs = {"stockham", "istockham", "radix2", "radix4", "ptable", "bluestein"}
  Lens = {1, 2, 4, 7, 8, 14, 16, 28, 32, 56, 112}
INVARIANTS Correct Stage
CHECK_DEADLOCK FALSE
