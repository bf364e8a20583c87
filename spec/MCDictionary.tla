---------------------------- MODULE MCDictionary ----------------------------
(* Histories of dictionary accessors on one packet (C12), with attributes   *)
(* of several kinds.  given records, per attribute, what was added and not  *)
(* since deleted; the invariants say what looking up gives in terms of it,  *)
(* before and after a round trip over the wire.  Foreign values (added with *)
(* the untyped API) are recorded as such.                                   *)
EXTENDS Dictionary, FiniteSets, TLC
CONSTANTS Depth, Kinds

Table == << [num |-> 1, kind |-> "string", len |-> 0],          [num |-> 2, kind |-> "user_password", len |-> 0],
            [num |-> 79, kind |-> "concat", len |-> 0],         [num |-> 64, kind |-> "tagged_integer", len |-> 0],
            [num |-> 3, kind |-> "fixed", len |-> 2],           [num |-> 69, kind |-> "tunnel_password", len |-> 0],
            [num |-> 67, kind |-> "tagged_string", len |-> 0],  [num |-> 26, kind |-> "vsa", len |-> 0],
            [num |-> 97, kind |-> "ipv6prefix", len |-> 0],     [num |-> 5, kind |-> "integer", len |-> 0] >>
Used == {a \in 1..Len(Table) : Table[a].kind \in Kinds}
Long(n) == [i \in 1..n |-> i % 251]
Vals(kind) == CASE kind = "string" -> {<<97>>, <<195, 169>>}
                [] kind = "user_password" -> {<<1, 0, 2>>, Long(17), Long(129)}
                [] kind = "tunnel_password" -> {<<7>>, Long(16)}
                [] kind = "concat" -> {<<5>>, Long(254), <<>>}
                [] kind \in {"tagged_integer", "integer"} -> {<<0, 0, 0, 9>>, <<255, 1, 2, 3>>}
                [] kind = "fixed" -> {<<1, 2>>, <<1>>}
                [] kind = "tagged_string" -> {<<98, 99>>}
                [] kind = "vsa" -> {<<0, 0, 0, 9, 1, 3, 4>>}
                [] kind = "ipv6prefix" -> {<<32, 1>>, Long(17)}
Tags(kind) == IF kind \in {"tagged_integer", "tunnel_password", "tagged_string"} THEN {NoTag, 1, 31} ELSE {NoTag}
Foreign == {<<>>, <<255, 254>>}

VARIABLES p, given, steps
vars == <<p, given, steps>>
Init == /\ p = NewPacket(1, 7, [i \in 1..16 |-> i], <<115, 51>>)
        /\ given = [a \in 1..Len(Table) |-> <<>>] /\ steps = 0

(* The values a writer appends; the salt and the split are choices.         *)
RECURSIVE Split(_, _)
Split(val, k) == IF Len(val) <= k THEN <<val>> ELSE <<SubSeq(val, 1, k)>> \o Split(SubSeq(val, k + 1, Len(val)), k)
Appended(a, val, tag) ==
  CASE a.kind = "concat" -> {Split(val, k) : k \in {253, 200}}
    [] a.kind = "tunnel_password" ->
         {<< <<IF tag = NoTag THEN 0 ELSE tag>> \o s \o HideFrom(PadTo(val), p.auth \o s, p.secret) >> : s \in {<<128, 0>>, <<255, 7>>}}
    [] a.kind = "vsa" -> {<<val>>}
    [] OTHER -> {<<Write(a.kind, a.len, val, tag, p.secret, p.auth).raw>>}

Add(i, val, tag) ==
  LET a == Table[i] IN
  IF AddErrs(a, p, val, tag) # {} THEN UNCHANGED <<p, given>>           \* refused: nothing changes
  ELSE \E new \in Appended(a, val, tag) :
         /\ (a.kind = "concat" /\ Len(val) <= 253 => Len(new) <= 1)
         /\ Assert(LegalAdd(a, p, val, tag, new), "the writer's result is legal")
         /\ p' = ExtendAttrs(p, [k \in 1..Len(new) |-> [t |-> a.num, v |-> new[k]]])
         /\ given' = [given EXCEPT ![i] = Append(@, [typed |-> TRUE, val |-> val, tag |-> tag])]
Untyped(i, raw) == /\ p' = AddAttr(p, [t |-> Table[i].num, v |-> raw])
                   /\ given' = [given EXCEPT ![i] = Append(@, [typed |-> FALSE, val |-> raw, tag |-> NoTag])]
Delete(i) == p' = DeleteAttrs(p, Table[i].num) /\ given' = [given EXCEPT ![i] = <<>>]

Next == /\ steps < Depth /\ steps' = steps + 1
        /\ \E i \in Used : \/ \E val \in Vals(Table[i].kind), tag \in Tags(Table[i].kind) : Add(i, val, tag)
                           \/ \E raw \in Foreign : Untyped(i, raw)
                           \/ Delete(i)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* What was given, as it is read: tagged integers and tunnel passwords      *)
(* without a tag are read with tag 0.                                       *)
AsRead(a, g) == Ok(g.val, IF g.tag = NoTag /\ a.kind \in {"tagged_integer", "tunnel_password"} THEN 0 ELSE g.tag)
Good(i, q) ==
  LET a == Table[i] g == given[i] IN
  IF a.kind = "concat"
  THEN IF g = <<>> THEN DictLookup(a, q).errs = {"none"} /\ DictAll(a, q).vals = <<>>
       ELSE LET all == Join([k \in 1..Len(g) |-> g[k].val]) IN DictLookup(a, q) = Ok(all, NoTag) /\ DictAll(a, q).vals = <<Ok(all, NoTag)>>
  ELSE /\ g = <<>> => DictLookup(a, q).errs = {"none"} /\ DictAll(a, q) = [ok |-> TRUE, vals |-> <<>>]
       /\ g # <<>> /\ g[1].typed => DictLookup(a, q) = AsRead(a, g[1])
       /\ (\A k \in 1..Len(g) : g[k].typed) => DictAll(a, q) = [ok |-> TRUE, vals |-> [k \in 1..Len(g) |-> AsRead(a, g[k])]]
       /\ Len(LookupAll(q, a.num)) = Len(g)                             \* malformed values stay where they are
Accessors == \A i \in Used : Good(i, p)
(* Looking up, adding and deleting one attribute leaves the others alone.   *)
OthersKept == [][\A i \in Used : given'[i] = given[i] => LookupAll(p', Table[i].num) = LookupAll(p, Table[i].num)]_vars
OverTheWire ==
  LET e == Encode(p) IN
  e.ok => LET d == Decode(e.bytes, p.secret) IN d.ok /\ \A i \in Used : Good(i, d.packet)
=============================================================================
