SPECIFICATION Spec
CONSTANTS
  P = 191
  Gre = 130
  Gim = 10
  Algs = {"rfftbad"}
  Lens = {4, 8}
INVARIANTS Correct Stage
CHECK_DEADLOCK FALSE
