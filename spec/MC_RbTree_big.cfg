SPECIFICATION Spec
CONSTANTS
 Keys = {"61", "6161", "62", "63", "64", "65", "66", "6600", "67", "68", "69"}
 Vals = {"00"}
 Probes = {"", "61", "6162", "62", "63", "65", "66", "67", "6a"}
INVARIANTS Structure Hashes Holds Flat Proofs
CHECK_DEADLOCK FALSE
