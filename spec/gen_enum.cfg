SPECIFICATION EnumSpec
CONSTANTS
  Prof = "E1"
  Depth = 1
  Faults = 0
  Big = 0
  CatPart = 0
  CatParts = 1
INVARIANTS TypeOk Inv_Locs Inv_Stack Inv_Dropped Inv_Order Inv_Slots Inv_Abort Inv_Same Inv_Once Inv_Faults Inv_Accepted
CHECK_DEADLOCK FALSE
