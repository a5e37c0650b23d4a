SPECIFICATION Spec
CONSTANTS
  TextNames = {"a", "b"}
  TextValues = {"1", "23", "empty", "pct"}
  MaxPairs = 3
INVARIANTS ReadsWhatWasMeant FieldRules TableWhole OrderOfNamesFree
