------------------------------ MODULE SystemSim -----------------------------
(* Histories of System, printed for the replay on the real code.            *)
EXTENDS System, TLC, Json
EmitEnd == Len(hist) = MaxLen => PrintT("HISTORY " \o ToJson(hist))
=============================================================================
