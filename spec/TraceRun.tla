------------------------------ MODULE TraceRun ------------------------------
(***************************************************************************)
(* Checks recorded histories of the code against a specification.          *)
(*                                                                         *)
(* TRACE names a file with one history per line: the table of the cells    *)
(* that occur in it, and its events, each an operation with its observed   *)
(* result.  The specification supplies the initial state and, for an event *)
(* and a state, <<next state, problem>>, where "" is no problem.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS TInit(_), TStep(_, _, _)
VARIABLES tid, i, st, bad

Traces == ndJsonDeserialize(IOEnv.TRACE)

Init == /\ tid \in 1..Len(Traces)
        /\ i = 0
        /\ st = TInit(Traces[tid])
        /\ bad = ""
Next == /\ bad = ""
        /\ i < Len(Traces[tid].ev)
        /\ LET r == TStep(Traces[tid], st, Traces[tid].ev[i + 1])
           IN  /\ st' = r[1]
               /\ bad' = r[2]
        /\ i' = i + 1
        /\ tid' = tid
Conforms == bad = ""
(* Conforms, but every history that does not is reported, not only the first. *)
Report == bad = "" \/ PrintT("MISMATCH trace=" \o ToString(Traces[tid].id) \o " event=" \o ToString(i) \o " op="
                            \o ToString(Traces[tid].ev[i]) \o " BECAUSE " \o bad)
=============================================================================
