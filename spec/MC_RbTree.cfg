SPECIFICATION Spec
CONSTANTS
 Keys = {"61", "6161", "62", "63", "64", "65"}
 Vals = {"00", "01"}
 Probes = {"", "61", "6162", "62", "63", "65"}
INVARIANTS Structure Hashes Holds Flat Proofs
CHECK_DEADLOCK FALSE
