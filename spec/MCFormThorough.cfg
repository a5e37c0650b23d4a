SPECIFICATION Spec
CONSTANTS
  TextNames = {"a", "b", "e9"}
  TextValues = {"1", "empty", "sp", "pct4", "eq"}
  MaxPairs = 3
INVARIANTS ReadsWhatWasMeant FieldRules TableWhole OrderOfNamesFree
