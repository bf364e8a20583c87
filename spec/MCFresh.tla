------------------------------ MODULE MCFresh -------------------------------
(* A pool of two-octet authenticators over 0..2, drawn without repetition:  *)
(* after the pool is exhausted every position has taken every value, and at *)
(* no time is a value repeated.                                             *)
EXTENDS Freshness
VARIABLE h
Pool == {<<a, b>> : a \in 0..1, b \in 0..2}
Init == h = <<>>
Next == \E v \in Pool : (\A i \in 1..Len(h) : h[i] # v) /\ h' = Append(h, v)
NoRepeat == Distinct(h)
Exhausted == Len(h) = Cardinality(Pool) => ValuesAt(h, 1) = 0..1 /\ ValuesAt(h, 2) = 0..2
=============================================================================
