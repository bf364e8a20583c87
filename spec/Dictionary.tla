----------------------------- MODULE Dictionary -----------------------------
(* The accessors of a dictionary attribute [num, kind, len] on a packet:    *)
(* what adding a value appends, and what looking up gives.                  *)
EXTENDS Radius, PacketObject

RECURSIVE Join(_)
Join(vs) == IF vs = <<>> THEN <<>> ELSE Head(vs) \o Join(Tail(vs))

(* Is `new` a legal sequence of value octets appended for val?              *)
LegalAdd(a, p, val, tag, new) ==
  CASE a.kind = "concat" ->
         /\ Join(new) = val
         /\ \A i \in 1..Len(new) : Len(new[i]) <= 253 /\ (val # <<>> => new[i] # <<>>)
         /\ Len(val) <= 253 => Len(new) <= 1
    [] a.kind = "tunnel_password" ->
         Len(new) = 1 /\ TunnelWriteErrs(val, p.secret, p.auth) = {} /\ IsTunnelRaw(new[1], val, tag, p.secret, p.auth)
    [] a.kind = "vsa" -> new = <<val>>
    [] OTHER -> LET w == Write(a.kind, a.len, val, tag, p.secret, p.auth)
                IN  w.ok /\ new = <<w.raw>>

AddErrs(a, p, val, tag) ==
  CASE a.kind \in {"concat", "vsa"} -> {}
    [] a.kind = "tunnel_password" -> TunnelWriteErrs(val, p.secret, p.auth)
    [] OTHER -> LET w == Write(a.kind, a.len, val, tag, p.secret, p.auth)
                IN  IF w.ok THEN {} ELSE w.errs

ReadAs(a, p, raw) == IF a.kind = "vsa" THEN Ok(raw, NoTag) ELSE Read(a.kind, raw, p.secret, p.auth)

DictLookup(a, p) ==
  IF ~Has(p, a.num) THEN [ok |-> FALSE, errs |-> {"none"}]
  ELSE IF a.kind = "concat" THEN Ok(Join(LookupAll(p, a.num)), NoTag)
  ELSE ReadAs(a, p, Lookup(p, a.num))

DictAll(a, p) ==
  IF a.kind = "concat"
  THEN [ok |-> TRUE, vals |-> IF Has(p, a.num) THEN <<Ok(Join(LookupAll(p, a.num)), NoTag)>> ELSE <<>>]
  ELSE LET raws == LookupAll(p, a.num)
           rs   == [i \in 1..Len(raws) |-> ReadAs(a, p, raws[i])]
           errs == UNION {IF rs[i].ok THEN {} ELSE rs[i].errs : i \in 1..Len(rs)}
       IN  IF errs = {} THEN [ok |-> TRUE, vals |-> rs] ELSE [ok |-> FALSE, errs |-> errs]
DictOpen(a, p) == \E i \in 1..Len(p.attrs) : p.attrs[i].t = a.num /\ ReadOpen(a.kind, p.attrs[i].v)
=============================================================================
