-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* Bounded exhaustive exploration of a family of cases numbered from 0:    *)
(* TLC checks the laws of every case on the specification and writes out   *)
(* the calls that replay it on the real code.  One initial state per chunk *)
(* of cases, so that TLC's workers share them.  With VP_PART = K only      *)
(* every K-th case is looked at, starting with VP_SEED modulo K.           *)
(***************************************************************************)
EXTENDS TraceBase

CONSTANTS Count,        \* number of cases
          Vectors(_),   \* calls of case i
          Broken(_)     \* names of the laws that case i breaks

VARIABLES chunk, bad

Part == atoi(IOEnv.VP_PART)
From == atoi(IOEnv.VP_SEED) % Part
PerChunk == 64
Mine == IF Count <= From THEN 0 ELSE (Count - From + Part - 1) \div Part
Chunks == (Mine + PerChunk - 1) \div PerChunk
CaseOf(j) == From + (j - 1) * Part
CasesOf(c) == [k \in 1..(IF c = Chunks THEN Mine - (Chunks - 1) * PerChunk ELSE PerChunk) |-> CaseOf((c - 1) * PerChunk + k)]

RECURSIVE Concatenated(_, _)
Concatenated(cs, i) == IF i > Len(cs) THEN << >> ELSE Vectors(cs[i]) \o Concatenated(cs, i + 1)

Init == chunk \in 1..Chunks /\ bad = << >>
Next == /\ bad = << >>
        /\ chunk' = chunk
        /\ LET cs == CasesOf(chunk) IN
           /\ ndJsonSerialize(IOEnv.VP_OUT \o "/v" \o ToString(chunk) \o ".ndjson", Concatenated(cs, 1))
           /\ bad' = << UNION {{<< cs[k], l >> : l \in Broken(cs[k])} : k \in 1..Len(cs)} >>
Spec == Init /\ [][Next]_<< chunk, bad >>

LawsHold == bad \in {<< >>, << {} >>}
Complete == TLCGet("stats").distinct = 2 * Chunks
=============================================================================
