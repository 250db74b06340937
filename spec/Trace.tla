-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of recorded calls of the library against the specification.  *)
(* Every line of the trace is one call: the text, the default field, the   *)
(* data map and what the code did.  The trace is cut into chunks, one      *)
(* initial state each, so that TLC's workers share it.                     *)
(***************************************************************************)
EXTENDS TraceBase

Events == ndJsonDeserialize(IOEnv.VP_TRACE)
ChunkSize == 50
Chunks == (Len(Events) + ChunkSize - 1) \div ChunkSize

VARIABLES chunk, pos, good
vars == << chunk, pos, good >>
TraceInit == chunk \in 1..Chunks /\ pos = 0 /\ good = TRUE
Index == (chunk - 1) * ChunkSize + pos
TraceNext ==
  /\ pos < ChunkSize /\ Index < Len(Events)
  /\ pos' = pos + 1 /\ chunk' = chunk
  /\ good' = Conforms(Events[Index + 1])
TraceSpec == TraceInit /\ [][TraceNext]_vars

\* every recorded call is a behaviour of the specification
CallConforms == good
\* every line was consumed: one state per line and one initial state per chunk
TraceAccepted == TLCGet("stats").distinct = Len(Events) + Chunks

\* what the specification says about the last call looked at (for the report)
Alias == [event |-> Index, good |-> good,
          specified |-> IF good \/ Events[Index].open THEN << >>
                        ELSE LET e == Events[Index] IN IF "want" \in DOMAIN e THEN << e.want >> ELSE << Spec1(e, Parse(e.x, e.def), e.td[1]) >>]
=============================================================================
