SPECIFICATION Spec
CONSTANTS
  Lay = "std140"
  Kinds <- K
  MaxItems = 2
  MaxCalls = 2
  MaxFaults = 2
  CountsLate = TRUE
  Faulty = TRUE
INVARIANTS CallsFollowTheRules CountIsHeld

CHECK_DEADLOCK FALSE
