SPECIFICATION Spec
CONSTANTS N = 4
          Moves = FALSE
INVARIANTS TypeOK Refines Sound Victim
CHECK_DEADLOCK FALSE
