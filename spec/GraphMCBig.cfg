SPECIFICATION Spec
CONSTANTS
  PkgNames = {"a", "b", "c"}
  Recipes = 3
INVARIANT Right
PROPERTY Stable
CHECK_DEADLOCK FALSE
