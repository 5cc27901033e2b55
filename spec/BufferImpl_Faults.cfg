SPECIFICATION Spec
CONSTANTS
  Lay = "std140"
  Kinds <- K
  MaxItems = 2
  MaxCalls = 2
  MaxFaults = 1
  CountsLate = FALSE
  Faulty = TRUE
INVARIANTS CallsFollowTheRules CountIsHeld
PROPERTIES AppendOnly
CHECK_DEADLOCK FALSE
