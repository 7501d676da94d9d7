SPECIFICATION Spec
CONSTANTS
  P = 79
  Gre = 65
  Gim = 68
  Algs = {"stockham", "istockham", "radix2", "radix4", "ptable", "bluestein"}
  Lens = {1, 2, 4, 5, 8, 10, 16, 20, 40}
INVARIANTS Correct Stage
CHECK_DEADLOCK FALSE
