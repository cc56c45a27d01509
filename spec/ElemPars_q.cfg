SPECIFICATION Spec
CONSTANTS MaxWords = 1
Simulating = FALSE
INVARIANTS NamesUnique OnlyMentioned Emit
CHECK_DEADLOCK FALSE
