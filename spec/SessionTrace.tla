---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Validation of recorded concurrent histories.  A history is a sequence   *)
(* of begin, read and end events of several threads that share parsers and *)
(* evaluators.  Every thread has at most one call under way; a read names  *)
(* the thread that reads (-1: not one of the callers) and the thread whose *)
(* data map is read; the end of a call carries its outcome, which has to   *)
(* be the one the call has when it is made alone.  One history per line.   *)
(***************************************************************************)
EXTENDS TraceBase

Histories == ndJsonDeserialize(IOEnv.VP_TRACE)

VARIABLES hist, pos, call, good
vars == << hist, pos, call, good >>

Idle == [k |-> "idle"]
ThreadIds == 0..7
H == Histories[hist].h

Init == /\ hist \in 1..Len(Histories)
        /\ pos = 0
        /\ call = [t \in ThreadIds |-> Idle]
        /\ good = ~Histories[hist].mut

\* a thread starts a call; only then is its own data map readable
Begin(e) ==
  /\ e.k = "begin"
  /\ good' = (call[e.t].k = "idle")
  /\ call' = [call EXCEPT ![e.t] = [k |-> "busy", e |-> e, p |-> Parse(e.x, e.def)]]

\* a read concerns the data of a call under way, made by its own thread, of a key that call may read
Read(e) ==
  /\ e.k = "read"
  /\ good' = /\ e.t \in {-1, e.m}
             /\ call[e.m].k = "busy"
             /\ LET c == call[e.m] IN ReadsAllowed(c.e, c.p, << c.e.td, c.e.td + 1 >>, << e.key >>)
  /\ UNCHANGED call

\* a call ends with the outcome it has when made alone
End(e) ==
  /\ e.k = "end"
  /\ good' = /\ call[e.t].k = "busy"
             /\ LET c == call[e.t] IN OutcomeConforms(c.e, c.p, e.td, e.out)
  /\ call' = [call EXCEPT ![e.t] = Idle]

\* histories end with no call under way
Finished == \A t \in ThreadIds : call[t].k = "idle"

Next == /\ pos < Len(H)
        /\ pos' = pos + 1
        /\ hist' = hist
        /\ LET e == H[pos + 1] IN Begin(e) \/ Read(e) \/ End(e)
Spec == Init /\ [][Next]_vars

CallConforms == good
NothingLost == pos = Len(H) => Finished /\ ~Histories[hist].stuck
RECURSIVE Total(_)
Total(i) == IF i = 0 THEN 0 ELSE Len(Histories[i].h) + Total(i - 1)
\* every event was consumed
TraceAccepted == TLCGet("stats").distinct = Total(Len(Histories)) + Len(Histories)

Alias == [event |-> hist, at |-> pos, good |-> good]
=============================================================================
