SPECIFICATION GenSpec
CONSTANTS
 Keys = {"61", "6161", "62", "63", "64", "65", "66", "6600"}
 Vals = {"00"}
 Probes = {"61", "6162", "62", "65", "67"}
VIEW Shape
CHECK_DEADLOCK FALSE
