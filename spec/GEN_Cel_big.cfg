SPECIFICATION Spec
CONSTANTS MaxEdits = 1
          Bases = {1, 2, 3, 4, 5}
          AllSpaces = TRUE
          Swaps = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
