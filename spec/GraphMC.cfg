SPECIFICATION Spec
CONSTANTS
  PkgNames = {"a", "b"}
  Recipes = 3
INVARIANT Right
PROPERTY Stable
CHECK_DEADLOCK FALSE
