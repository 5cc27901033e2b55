SPECIFICATION Spec
CONSTANTS
  Alphabet <- ClassAlphabet
  MaxFields = 4
  MaxDecls = 1
INVARIANTS
  MembersWhereGlslPutsThem
  ClosedIsGlsl
  NoImplicitPadding
  MembersDisjoint
  Std430NoLarger
  AlignmentsArePowersOfTwo
  SizeIsMultipleOfAlign
CHECK_DEADLOCK FALSE
