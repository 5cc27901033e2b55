SPECIFICATION Spec
CONSTANTS
  Lay = "std140"
  Kinds <- K2
  MaxItems = 3
  MaxCalls = 2
  MaxFaults = 2
  CountsLate = FALSE
  Faulty = FALSE
INVARIANTS CallsFollowTheRules CountIsHeld
PROPERTIES AppendOnly CallsEnd
CHECK_DEADLOCK FALSE
