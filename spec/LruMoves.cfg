SPECIFICATION Spec
CONSTANTS N = 5
          Moves = TRUE
INVARIANTS TypeOK Refines Sound Victim
CHECK_DEADLOCK FALSE
