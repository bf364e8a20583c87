----------------------------- MODULE Freshness ------------------------------
(* Packet construction over a history (C23).  A generator hands out         *)
(* authenticators from a pool; the design requirement is that no value is   *)
(* handed out twice and that, over a long history, no position of the       *)
(* authenticator is stuck.  MCFresh explores a small pool; TraceFresh       *)
(* evaluates the same predicates on the recorded history of the code.       *)
EXTENDS Naturals, Sequences, FiniteSets

Distinct(h) == Cardinality({h[i] : i \in 1..Len(h)}) = Len(h)
ValuesAt(h, pos) == {h[i][pos] : i \in 1..Len(h)}
(* A part of the history, too short to show every value: many values.       *)
Varies(h, width, atLeast) == \A pos \in 1..width : Cardinality(ValuesAt(h, pos)) >= atLeast
AllVary(h, width, range) == \A pos \in 1..width : ValuesAt(h, pos) = range
=============================================================================
