SPECIFICATION Spec
CONSTANTS
  P = 191
  Gre = 130
  Gim = 10
  Algs = {"hilbertbad"}
  Lens = {3}
INVARIANTS Correct Stage
CHECK_DEADLOCK FALSE
