SPECIFICATION Spec
CONSTANTS
  P = 191
  Gre = 130
  Gim = 10
  Algs = {"rfft", "irfft", "hilbert", "hartley"}
  Lens = {1, 2, 3, 4, 6, 8, 12, 16, 24, 32, 48, 64, 96}
INVARIANTS Correct Stage
CHECK_DEADLOCK FALSE
