SPECIFICATION Spec
CONSTANTS
  P = 71
  Gre = 51
  Gim = 58
  Algs = {"rfft", "irfft", "hilbert", "hartley"}
  Lens = {3, 4, 6, 8, 9, 12, 18, 24, 36}
INVARIANTS Correct Stage
CHECK_DEADLOCK FALSE
