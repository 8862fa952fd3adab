SPECIFICATION Spec
CONSTANTS MaxEdits = 1
          Bases = {1, 2, 4}
          AllSpaces = FALSE
          Swaps = TRUE
INVARIANT Sound
CHECK_DEADLOCK FALSE
