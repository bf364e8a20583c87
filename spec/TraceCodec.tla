----------------------------- MODULE TraceCodec -----------------------------
(* Validates recorded sessions of the packet, attribute and dictionary API  *)
(* against the specification.  Each session is a behaviour: its events must *)
(* be the steps of PacketObject/Dictionary/Wire/Values.  A session that is  *)
(* not a behaviour of the specification makes TLC report a deadlock at the  *)
(* offending event (si, l).                                                 *)
EXTENDS Dictionary, FiniteSets, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
DictAttrs  == JsonDeserialize(IOEnv.DICT_ATTRS)
DictConsts == JsonDeserialize(IOEnv.DICT_CONSTS)

VARIABLES si, l, st
vars == <<si, l, st>>

B(s) == HexBytes(s)
AttrsOf(js) == [i \in 1..Len(js) |-> [t |-> js[i].t, v |-> B(js[i].v)]]

(* The attributes of a packet as observed through lookup-all of each type.  *)
AttrsSeen(p, seen) ==
  /\ {seen[i].t : i \in 1..Len(seen)} = Types(p)
  /\ \A i \in 1..Len(seen) : [j \in 1..Len(seen[i].vs) |-> B(seen[i].vs[j])] = LookupAll(p, seen[i].t)
FirstSeen(p, seen) ==
  /\ Len(seen) = Cardinality(Types(p))
  /\ {seen[i].t : i \in 1..Len(seen)} = Types(p)
  /\ \A i \in 1..Len(seen) : B(seen[i].v) = Lookup(p, seen[i].t)

ValsOfType(seen, t) ==
  LET ix == {i \in 1..Len(seen) : seen[i].t = t}
  IN  IF ix = {} THEN <<>> ELSE LET i == CHOOSE i \in ix : TRUE IN [j \in 1..Len(seen[i].vs) |-> B(seen[i].vs[j])]

No == [ok |-> FALSE]
Obs(cond) == IF cond THEN [ok |-> TRUE, st |-> st] ELSE No        \* an observation: no change of state
SetObj(o, p) == [ok |-> TRUE, st |-> [st EXCEPT !.objs = [x \in DOMAIN @ \cup {o} |-> IF x = o THEN p ELSE @[x]]]]
P(o) == st.objs[o]
Defined(o) == o \in DOMAIN st.objs

(* A result of a fallible operation against the specified one.              *)
ErrOK(ev, r) == ~r.ok /\ ev.res = "err" /\ ev.err \in r.errs
(* A packet type octet of the script is given through Code::from.           *)
Apply(ev) ==
  CASE ev.e = "skip" -> Obs(TRUE)
    [] ev.e = "new" ->
         IF ev.res = "ok" /\ Len(B(ev.rauth)) = 16 /\ (ev.id >= 0 => ev.rid = ev.id)
         THEN SetObj(ev.o, NewPacket(ReadCode(ev.code), ev.rid, B(ev.rauth), B(ev.secret))) ELSE No
    [] ev.e = "get" ->
         Obs(/\ Defined(ev.o)
             /\ ev.code = P(ev.o).code /\ ev.id = P(ev.o).id /\ B(ev.auth) = P(ev.o).auth
             /\ B(ev.secret) = P(ev.o).secret
             /\ AttrsSeen(P(ev.o), ev.attrs) /\ FirstSeen(P(ev.o), ev.first))
    [] ev.e = "setid" -> SetObj(ev.o, SetId(P(ev.o), ev.id))
    [] ev.e = "add"   -> SetObj(ev.o, AddAttr(P(ev.o), [t |-> ev.t, v |-> B(ev.v)]))
    [] ev.e = "ext"   -> SetObj(ev.o, ExtendAttrs(P(ev.o), AttrsOf(ev.avs)))
    [] ev.e = "del"   -> SetObj(ev.o, DeleteAttrs(P(ev.o), ev.t))
    [] ev.e = "look"  -> Obs(IF Has(P(ev.o), ev.t) THEN ev.res = "ok" /\ B(ev.v) = Lookup(P(ev.o), ev.t)
                             ELSE ev.res = "none")
    [] ev.e = "lookall" -> Obs([j \in 1..Len(ev.vs) |-> B(ev.vs[j])] = LookupAll(P(ev.o), ev.t))
    [] ev.e = "enc" -> LET r == Encode(P(ev.o))
                       IN  Obs(IF r.ok THEN ev.res = "ok" /\ B(ev.bytes) = r.bytes ELSE ErrOK(ev, r))
    [] ev.e = "dec" -> LET r == Decode(B(ev.b), B(ev.secret))
                       IN  IF r.ok THEN (IF ev.res = "ok" THEN SetObj(ev.o, r.packet) ELSE No) ELSE Obs(ErrOK(ev, r))
    [] ev.e = "mkresp" -> SetObj(ev.n, MakeResponse(P(ev.o), ReadCode(ev.code)))
    [] ev.e = "clone"  -> SetObj(ev.n, P(ev.o))
    [] ev.e = "eq"     -> Obs(ev.res = (P(ev.o) = P(ev.n)))
    [] ev.e = "areq"   -> Obs(ev.res # "panic" /\ (ev.res = "yes") \in RequestVerdicts(B(ev.b), B(ev.secret)))
    [] ev.e = "aresp"  -> Obs(ev.res # "panic" /\ (ev.res = "yes") \in ResponseVerdicts(B(ev.b), B(ev.q), B(ev.secret)))
    [] ev.e = "mk" ->
         (IF ev.kind = "tunnel_password"
          THEN LET errs == TunnelWriteErrs(B(ev.val), B(ev.secret), B(ev.auth))
               IN  Obs(IF errs = {} THEN /\ ev.res = "ok" /\ ev.rt = ev.t
                                         /\ IsTunnelRaw(B(ev.raw), B(ev.val), ev.tag, B(ev.secret), B(ev.auth))
                       ELSE ev.res = "err" /\ ev.err \in errs)
          ELSE LET w == Write(ev.kind, 0, B(ev.val), ev.tag, B(ev.secret), B(ev.auth))
               IN  Obs(IF w.ok THEN ev.res = "ok" /\ ev.rt = ev.t /\ B(ev.raw) = w.raw ELSE ErrOK(ev, w)))
    [] ev.e = "rd" ->
         LET r == Read(ev.kind, B(ev.raw), B(ev.secret), B(ev.auth))
         IN  Obs(IF r.ok THEN \/ ev.res = "ok" /\ B(ev.val) = r.val /\ ev.tag = r.tag
                              \/ ReadOpen(ev.kind, B(ev.raw)) /\ ev.res \in {"ok", "err"}
                 ELSE ErrOK(ev, r))
    [] ev.e = "vsa" -> Obs(/\ ev.res = "ok"
                           /\ B(ev.msg) = VsaMessage(B(ev.vendor), ev.vtype, ev.tag, B(ev.val))
                           /\ ev.len = Len(B(ev.val)) + (IF ev.tag = NoTag THEN 2 ELSE 3)
                           /\ ~ev.empty)
    [] ev.e = "tag" -> LET x == IF ev.unused THEN 0 ELSE ev.v
                       IN  Obs(ev.get = x /\ ev.zero = (x = 0) /\ ev.valid = (x >= 1 /\ x <= 31))
    [] ev.e = "code" -> Obs(ev.num = ReadCode(ev.v) /\ ev.name = CodeName(ReadCode(ev.v)))
    [] ev.e = "dnum" -> Obs(ev.num = DictAttrs[ev.a + 1].num)
    [] ev.e = "dconst" -> Obs(ev.num = DictConsts[ev.a + 1].hex)
    [] ev.e = "dadd" ->
         LET a == DictAttrs[ev.a + 1]
             p == P(ev.o)
             errs == AddErrs(a, p, B(ev.val), ev.tag)
         IN  IF errs # {} THEN Obs(ev.res = "err" /\ ev.err \in errs /\ AttrsSeen(p, ev.attrs))
             ELSE LET seen == ValsOfType(ev.attrs, a.num)
                      old  == LookupAll(p, a.num)
                      new  == SubSeq(seen, Len(old) + 1, Len(seen))
                      q    == ExtendAttrs(p, [i \in 1..Len(new) |-> [t |-> a.num, v |-> new[i]]])
                  IN  IF ev.res = "ok" /\ Len(seen) >= Len(old) /\ LegalAdd(a, p, B(ev.val), ev.tag, new)
                         /\ AttrsSeen(q, ev.attrs)
                      THEN SetObj(ev.o, q) ELSE No
    [] ev.e = "dlook" ->
         LET a == DictAttrs[ev.a + 1]
             r == DictLookup(a, P(ev.o))
         IN  Obs(IF r.ok THEN \/ ev.res = "ok" /\ B(ev.val) = r.val /\ ev.tag = r.tag
                              \/ DictOpen(a, P(ev.o)) /\ ev.res \in {"ok", "err"}
                 ELSE IF r.errs = {"none"} THEN ev.res = "none" ELSE ErrOK(ev, r))
    [] ev.e = "dall" ->
         LET a == DictAttrs[ev.a + 1]
             r == DictAll(a, P(ev.o))
         IN  Obs(IF r.ok THEN \/ /\ ev.res = "ok" /\ Len(ev.vals) = Len(r.vals)
                                 /\ \A i \in 1..Len(r.vals) : B(ev.vals[i].val) = r.vals[i].val /\ ev.vals[i].tag = r.vals[i].tag
                              \/ DictOpen(a, P(ev.o)) /\ ev.res \in {"ok", "err"}
                 ELSE \/ ErrOK(ev, r)
                      \/ DictOpen(a, P(ev.o)) /\ ev.res = "err")
    [] ev.e = "ddel" -> SetObj(ev.o, DeleteAttrs(P(ev.o), DictAttrs[ev.a + 1].num))
    (* The debug text is a function of the packet without its secret, and    *)
    (* tells packets that differ otherwise apart.                            *)
    [] ev.e = "dbg" ->
         LET pub == <<P(ev.o).code, P(ev.o).id, P(ev.o).auth, P(ev.o).attrs>>
         IN  IF \A d \in st.dbg : (d[1] = pub <=> d[2] = ev.text) /\ (d[1] = pub <=> d[3] = ev.alt)
             THEN [ok |-> TRUE, st |-> [st EXCEPT !.dbg = @ \cup {<<pub, ev.text, ev.alt>>}]] ELSE No
    [] ev.e = "errtxt" ->
         IF \A d \in st.txt : d[1] = ev.key => d[2] = ev.text
         THEN [ok |-> TRUE, st |-> [st EXCEPT !.txt = @ \cup {<<ev.key, ev.text>>}]] ELSE No

Init == /\ si \in 1..Len(Sessions)
        /\ l = 1
        /\ st = [objs |-> <<>>, dbg |-> {}, txt |-> {}]
Done == l > Len(Sessions[si].ev)
Step == /\ ~Done
        /\ LET r == Apply(Sessions[si].ev[l]) IN r.ok /\ st' = r.st
        /\ l' = l + 1 /\ UNCHANGED si
Next == Step \/ (Done /\ UNCHANGED vars)
Cursor == <<si, l>>                     \* the state is a function of the position in the trace
Spec == Init /\ [][Next]_vars
=============================================================================
