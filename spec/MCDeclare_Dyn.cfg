SPECIFICATION Spec
CONSTANTS
  Alphabet <- DynAlphabet
  MaxFields = 3
  MaxDecls = 2
INVARIANTS
  MembersWhereGlslPutsThem
  ClosedIsGlsl
  NoImplicitPadding
  MembersDisjoint
  Std430NoLarger
  AlignmentsArePowersOfTwo
  SizeIsMultipleOfAlign
CHECK_DEADLOCK FALSE
