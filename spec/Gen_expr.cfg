CONSTANTS
  NS = 8
  Steps = 40
  Makes = 8
  Focus = "expr"
  PoolNo = 1
  Ops = {"plus", "minus", "mul", "pow", "tr", "deriv", "subst", "substmap", "at", "hstack", "vstack", "cmp", "cassimp", "cscale", "csubst", "cat", "compile"}
  Pick <- PickOne
  Ghost <- NoGhost
  Tracked <- GTracked
  KeyPairs <- GKeyPairs
  Mates <- GMates
  Replacements <- GReplacements
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
