SPECIFICATION Spec
CONSTANTS
  P = 191
  Gre = 130
  Gim = 10
  Algs = {"radix4bad"}
  Lens = {4, 16}
INVARIANTS Correct Stage
CHECK_DEADLOCK FALSE
