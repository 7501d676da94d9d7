SPECIFICATION Spec
CONSTANTS
  Archs = {"x86_64", "aarch64", "arm64", "i686", "", "x86_64-aarch64"}
  FlagSets <- MCFlags
  Nps = {0, 1, 2, 64}
  Extras = {"", "simd", " a  b ", "parallel", "avx2 x"}
  Tasks = {"build", "analyze", "sanity"}
  Statuses = {0, 1, 101, 256}
INVARIANTS OneArch OneIsa Best Par Clean Extra OneArg RunForm ParsesBack
CHECK_DEADLOCK FALSE
