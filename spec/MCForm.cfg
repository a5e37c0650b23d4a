SPECIFICATION Spec
CONSTANTS
  TextNames = {"a", "b", "amp", "e9"}
  TextValues = {"1", "empty", "sp", "plus", "eq", "pct4"}
  MaxPairs = 2
INVARIANTS ReadsWhatWasMeant FieldRules TableWhole OrderOfNamesFree
