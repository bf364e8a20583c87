---------------------------- MODULE PacketObject ----------------------------
(* A packet as an object: its attributes are an ordered multimap.  These    *)
(* are the pure transition and observation functions; MCPacket explores     *)
(* their histories and TraceCodec replays recorded histories through them.  *)
EXTENDS Naturals, Sequences

NewPacket(code, id, auth, secret) ==
  [code |-> code, id |-> id, auth |-> auth, secret |-> secret, attrs |-> <<>>]
SetId(p, id)      == [p EXCEPT !.id = id]
AddAttr(p, a)     == [p EXCEPT !.attrs = Append(@, a)]
ExtendAttrs(p, s) == [p EXCEPT !.attrs = @ \o s]
DeleteAttrs(p, t) == [p EXCEPT !.attrs = SelectSeq(@, LAMBDA a : a.t # t)]

OfType(p, t)    == SelectSeq(p.attrs, LAMBDA a : a.t = t)
LookupAll(p, t) == LET s == OfType(p, t) IN [i \in 1..Len(s) |-> s[i].v]
Has(p, t)       == \E i \in 1..Len(p.attrs) : p.attrs[i].t = t
Lookup(p, t)    == LookupAll(p, t)[1]
Types(p)        == {p.attrs[i].t : i \in 1..Len(p.attrs)}
=============================================================================
