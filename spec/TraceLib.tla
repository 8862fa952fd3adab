------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* Reading traces recorded from the implementation.  A trace is a file of  *)
(* JSON values, one per line; each line is one run (one call with its      *)
(* observed result, or one history of calls with the observation made      *)
(* after each).  JSON objects are records, arrays are sequences.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

TraceFile == IOEnv.VH_TRACE
Trace == ndJsonDeserialize(TraceFile)
NumRuns == Len(Trace)
Has(r, f) == f \in DOMAIN r

(* Runs are checked independently of each other: chunks of them start as   *)
(* separate initial states so that TLC's workers share them.               *)
ChunkLen == 1 + (NumRuns \div 128)
ChunkHeads == {i \in 1..NumRuns : i % ChunkLen = 1 \/ ChunkLen = 1}
=============================================================================
