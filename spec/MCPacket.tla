------------------------------ MODULE MCPacket ------------------------------
(* Histories of operations on packet objects.  objs follows PacketObject;   *)
(* hist records, for each object, the operations of its lineage, and the    *)
(* invariants state the multimap meaning of C06 declaratively over hist.    *)
(* With Emit = TRUE every history of length Depth is printed as JSON, to be *)
(* replayed on the implementation.                                          *)
EXTENDS PacketObject, FiniteSets, TLC, Json
CONSTANTS MaxObjs, TypeSet, Depth, Emit

VARIABLES objs, hist, ops
vars == <<objs, hist, ops>>

Ids == DOMAIN objs
Fresh == Cardinality(Ids) + 1
V == <<Len(ops) % 8>>                          \* each addition carries its own value

Log(o) == ops' = Append(ops, o)
Put(o, p, h) == /\ objs' = [x \in Ids \cup {o} |-> IF x = o THEN p ELSE objs[x]]
                /\ hist' = [x \in Ids \cup {o} |-> IF x = o THEN h ELSE hist[x]]

Init == objs = <<NewPacket(1, 7, <<0>>, <<1>>)>> /\ hist = << <<>> >> /\ ops = <<>>

Add(o, t) == /\ Put(o, AddAttr(objs[o], [t |-> t, v |-> V]), Append(hist[o], [op |-> "add", t |-> t, v |-> V]))
             /\ Log([e |-> "add", o |-> o, t |-> t, v |-> V])
Extend(o, t, u) ==
  LET s == <<[t |-> t, v |-> V], [t |-> u, v |-> V \o V]>>
  IN  /\ Put(o, ExtendAttrs(objs[o], s),
             hist[o] \o <<[op |-> "add", t |-> t, v |-> V], [op |-> "add", t |-> u, v |-> V \o V]>>)
      /\ Log([e |-> "ext", o |-> o, t |-> t, u |-> u, v |-> V])
Delete(o, t) == /\ Put(o, DeleteAttrs(objs[o], t), Append(hist[o], [op |-> "del", t |-> t, v |-> <<>>]))
                /\ Log([e |-> "del", o |-> o, t |-> t])
SetIdent(o) == /\ Put(o, SetId(objs[o], (objs[o].id + 1) % 256), hist[o]) /\ Log([e |-> "setid", o |-> o, id |-> (objs[o].id + 1) % 256])
Clone(o) == /\ Fresh <= MaxObjs /\ Put(Fresh, objs[o], hist[o]) /\ Log([e |-> "clone", o |-> o, n |-> Fresh])
Respond(o) == /\ Fresh <= MaxObjs /\ Put(Fresh, [objs[o] EXCEPT !.code = 2, !.attrs = <<>>], <<>>)
              /\ Log([e |-> "mkresp", o |-> o, n |-> Fresh])

Next == /\ Len(ops) < Depth
        /\ \E o \in Ids :
             \/ \E t \in TypeSet : Add(o, t) \/ Delete(o, t)
             \/ \E t, u \in TypeSet : Extend(o, t, u)
             \/ SetIdent(o) \/ Clone(o) \/ Respond(o)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* What was added and not since deleted, in order.                          *)
Kept(h, i) == h[i].op = "add" /\ \A j \in (i + 1)..Len(h) : ~(h[j].op = "del" /\ h[j].t = h[i].t)
RECURSIVE Surviving(_, _)
Surviving(h, i) == IF i > Len(h) THEN <<>>
                   ELSE (IF Kept(h, i) THEN <<[t |-> h[i].t, v |-> h[i].v]>> ELSE <<>>) \o Surviving(h, i + 1)

Multimap == \A o \in Ids : objs[o].attrs = Surviving(hist[o], 1)
LookupsAgree ==
  \A o \in Ids, t \in TypeSet :
    LET all == LookupAll(objs[o], t)
        pos == {i \in 1..Len(hist[o]) : Kept(hist[o], i) /\ hist[o][i].t = t}
    IN  /\ Len(all) = Cardinality(pos)
        /\ Has(objs[o], t) <=> pos # {}
        /\ pos # {} => Lookup(objs[o], t) = hist[o][CHOOSE i \in pos : \A j \in pos : i <= j].v
(* A step touches one object only.                                          *)
Independent == [][Cardinality({o \in Ids : objs'[o] # objs[o]}) <= 1]_vars
Identity == \A o \in Ids : objs[o].secret = <<1>> /\ objs[o].auth = <<0>>

Printed == Emit /\ Len(ops) = Depth => PrintT("HISTORY " \o ToJson(ops))
View == IF Emit THEN <<objs, hist, ops>> ELSE <<objs, hist, Len(ops)>>
=============================================================================
