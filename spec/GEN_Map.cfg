SPECIFICATION GenSpec
CONSTANTS
 Keys = {"61", "6161", "62", "63", "64"}
 Vals = {"00"}
 Probes = {"", "61", "6162", "62", "63", "65"}
VIEW Shape
CHECK_DEADLOCK FALSE
