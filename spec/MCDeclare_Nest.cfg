SPECIFICATION Spec
CONSTANTS
  Alphabet <- NestAlphabet
  MaxFields = 2
  MaxDecls = 3
INVARIANTS
  MembersWhereGlslPutsThem
  ClosedIsGlsl
  NoImplicitPadding
  MembersDisjoint
  Std430NoLarger
  AlignmentsArePowersOfTwo
  SizeIsMultipleOfAlign
CHECK_DEADLOCK FALSE
