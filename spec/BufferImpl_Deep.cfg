SPECIFICATION Spec
CONSTANTS
  Lay = "std140"
  Kinds <- K
  MaxItems = 2
  MaxCalls = 2
  MaxFaults = 2
  CountsLate = FALSE
  Faulty = TRUE
INVARIANTS CallsFollowTheRules CountIsHeld
PROPERTIES AppendOnly CallsEnd
CHECK_DEADLOCK FALSE
