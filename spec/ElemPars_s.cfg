SPECIFICATION Spec
CONSTANTS MaxWords = 6
Simulating = TRUE
INVARIANTS NamesUnique OnlyMentioned Emit
CHECK_DEADLOCK FALSE
