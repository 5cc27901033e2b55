SPECIFICATION Spec
CONSTANTS
  Alphabet <- WideAlphabet
  MaxFields = 2
  MaxDecls = 1
INVARIANTS
  MembersWhereGlslPutsThem
  ClosedIsGlsl
  NoImplicitPadding
  MembersDisjoint
  Std430NoLarger
  AlignmentsArePowersOfTwo
  SizeIsMultipleOfAlign
CHECK_DEADLOCK FALSE
