SPECIFICATION RandomSpec
CONSTANTS
  Prof = "C01"
  Depth = 3
  Faults = 0
  Big = 0
  CatPart = 0
  CatParts = 1
INVARIANTS TypeOk Inv_Locs Inv_Stack Inv_Dropped Inv_Order Inv_Slots Inv_Abort Inv_Same Inv_Once
CHECK_DEADLOCK FALSE
