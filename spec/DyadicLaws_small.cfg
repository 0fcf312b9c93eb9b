CONSTANTS
  NMax = 40
  KMax = 4
  What = "small"
  LimBits <- SmallLimBits
  BaseBits <- SmallBaseBits
SPECIFICATION Spec
INVARIANT Agree
CHECK_DEADLOCK FALSE
