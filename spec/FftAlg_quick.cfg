SPECIFICATION Spec
CONSTANTS
  P = 191
  Gre = 130
  Gim = 10
  Algs = {"stockham", "istockham", "radix2", "radix4", "ptable", "bluestein"}
  Lens = {1, 2, 3, 4, 6, 8, 12, 16, 24}
INVARIANTS Correct Stage
CHECK_DEADLOCK FALSE
