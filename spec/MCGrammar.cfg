SPECIFICATION Spec
CONSTANTS
  MaxToks = 9
  MaxDepth = 3
  MaxItems = 2
  Leaves = {"int", "text", "tag"}
  Openers = {"map", "seq", "tagged", "enum", "record", "tuple", "record_tuple", "val"}
  MaxHints = 0
  Seeds <- MCSeeds
  ForceHint = FALSE
  Deep = FALSE
INVARIANTS TypeOK Sound CanFinish NotStuck
CHECK_DEADLOCK FALSE
