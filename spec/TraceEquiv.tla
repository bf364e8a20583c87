----------------------------- MODULE TraceEquiv -----------------------------
(* Two recordings of the same sessions, one per crypto back end, step by    *)
(* step in lockstep: every event must be the same (C20).                    *)
EXTENDS Naturals, Sequences, Json, IOUtils
A == ndJsonDeserialize(IOEnv.TRACE)
B == ndJsonDeserialize(IOEnv.TRACE2)
VARIABLES si, l
Init == si \in 1..Len(A) /\ l = 1
Done == l > Len(A[si].ev)
Step == /\ ~Done
        /\ Len(B) = Len(A) /\ B[si].sid = A[si].sid /\ Len(B[si].ev) = Len(A[si].ev)
        /\ A[si].ev[l] = B[si].ev[l]
        /\ l' = l + 1 /\ UNCHANGED si
Next == Step \/ (Done /\ UNCHANGED <<si, l>>)
=============================================================================
