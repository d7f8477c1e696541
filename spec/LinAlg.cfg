SPECIFICATION MSpec
CONSTANTS MaxD = 3
INVARIANTS Posed ProjectorsInvariant Means Roots Inverses
