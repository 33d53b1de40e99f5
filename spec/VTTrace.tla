------------------------------- MODULE VTTrace -------------------------------
(* Base of every trace specification.  A trace file is a set of episodes recorded from the real code, one JSON
   object per line: [id |-> n, e |-> << event, ... >>].  Every episode is an initial state, so TLC's workers
   validate episodes in parallel; one event is consumed per step.  An episode that cannot be consumed to its end
   is a deadlock, which the runner reports.                                                                  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

VARIABLES tid, l

Traces == ndJsonDeserialize(IOEnv.VT_TRACE)

Ev      == Traces[tid].e[l]
More    == l <= Len(Traces[tid].e)
TInit   == tid \in 1..Len(Traces) /\ l = 1
Advance == More /\ l' = l + 1 /\ tid' = tid
AtEnd   == ~More /\ UNCHANGED <<tid, l>>
Op(name) == More /\ Ev.op = name
=============================================================================
