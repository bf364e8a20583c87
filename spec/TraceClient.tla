----------------------------- MODULE TraceClient ----------------------------
(* Validates recorded exchanges of the real client with a scripted server   *)
(* (harness/src/bin/client.rs) against Client.tla with the real encoding    *)
(* and verification.  Several exchanges of a session may be under way at    *)
(* once; every event names its exchange c.                                  *)
(*   call    c, p (the packet), to, st (socket timeout in ms, -1: none), at *)
(*   tx      c, b: the client has sent a datagram, wherever it arrives      *)
(*   peer    c, b: the server has received a datagram                       *)
(*   answer  c, from, b, at: a datagram is about to be sent to the client   *)
(*   result  c, kind, p, ms: the exchange has ended after ms milliseconds   *)
(*   waiting c: the exchange is still under way                             *)
(*   over    nothing more is going to happen                                *)
EXTENDS Radius, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
B(s) == HexBytes(s)

EncodeOf(p) == Encode(p)
Answer(b, p, q) ==
  LET d == Decode(b, p.secret) IN
  IF d.ok /\ d.packet.id = p.id /\ AuthenticResponse(b, q, p.secret) THEN d ELSE [ok |-> FALSE]
INSTANCE Client

VARIABLES si, l, xs
vars == <<si, l, xs>>

(* A packet as recorded: attributes in order. *)
PacketOf(j) == [code |-> j.code, id |-> j.id, auth |-> B(j.auth), secret |-> B(j.secret),
                attrs |-> [i \in 1..Len(j.attrs) |-> [t |-> j.attrs[i][1], v |-> B(j.attrs[i][2])]]]
TypesOf(attrs) == {attrs[i].t : i \in 1..Len(attrs)}
RECURSIVE ValsFrom(_, _, _)
ValsFrom(attrs, t, i) == IF i > Len(attrs) THEN <<>>
                         ELSE (IF attrs[i].t = t THEN <<attrs[i].v>> ELSE <<>>) \o ValsFrom(attrs, t, i + 1)
(* A packet as observed: values grouped by type. *)
Same(p, j) == /\ p.code = j.code /\ p.id = j.id /\ p.auth = B(j.auth) /\ p.secret = B(j.secret)
              /\ {<<t, ValsFrom(p.attrs, t, 1)>> : t \in TypesOf(p.attrs)}
                 = {<<j.attrs[i].t, [k \in 1..Len(j.attrs[i].vs) |-> B(j.attrs[i].vs[k])]>> : i \in 1..Len(j.attrs)}

Put(c, x) == [k \in DOMAIN xs \cup {c} |-> IF k = c THEN x ELSE xs[k]]
OK(ys) == [ok |-> TRUE, xs |-> ys]
No(why) == [ok |-> FALSE, why |-> {why}]

(* Timeouts are measured by the driver around the call, so an exchange that *)
(* has not lasted its timeout cannot have timed out.  A very short timeout  *)
(* may expire before the datagram is sent.                                  *)
Short(x) == x.st >= 0 /\ x.st < 100
(* An answer that is sent this shortly before the timeout (ms) may or may   *)
(* not be in time.                                                          *)
Margin == 150
OnResult(x, ev) ==
  LET sent == IF x.pc = "called" /\ CanTransmit(x) /\ (x.gone \/ Short(x)) THEN Transmit(x) ELSE x
      y == IF ev.ms >= x.st THEN Expire(sent) ELSE sent
      decided == y.inbox # <<>> /\ ~Short(x) /\ (x.st < 0 \/ x.first - x.at <= x.st - Margin)
      rs == {r \in Results(y) : decided => r.kind \in {"ok", "decode"}}
  IN  IF ev.kind = "panic" THEN No("panic")
      ELSE IF ev.kind = "ok" /\ \E r \in rs : r.kind = "ok" /\ ~Same(r.packet, ev.p) THEN No("wrongPacket")
      ELSE IF \E r \in rs : r.kind = ev.kind THEN OK(Put(ev.c, Finish(y, [kind |-> ev.kind])))
      ELSE IF ev.kind = "ok" THEN No(IF y.inbox = <<>> THEN "foreignAnswer" ELSE "notAuthentic")
      ELSE IF \E r \in rs : r.kind = "ok" THEN No("answerRefused")
      ELSE IF ev.kind = "timeout" THEN No(IF y.inbox = <<>> THEN "earlyTimeout" ELSE "answerIgnored")
      ELSE No("wrongResult")

Apply(ev) ==
  CASE ev.e = "call" -> LET x == Call(PacketOf(ev.p), ev.st >= 0, ev.to = "closed")
                        IN  OK(Put(ev.c, [k \in DOMAIN x \cup {"st", "n", "tx", "at", "first"} |->
                                        CASE k = "st" -> ev.st [] k \in {"n", "tx"} -> 0 [] k = "at" -> ev.at [] k = "first" -> 0 [] OTHER -> x[k]]))
    [] ev.e = "tx" -> IF ev.c \notin DOMAIN xs THEN No("strayDatagram")
                      ELSE LET x == xs[ev.c] IN
                           IF ~EncodeOf(x.p).ok THEN No("sentUnencodable")
                           ELSE IF B(ev.b) # Datagram(x) THEN No("wrongDatagram")
                           ELSE IF x.tx > 0 THEN No("sentTwice")
                           ELSE OK(Put(ev.c, [x EXCEPT !.tx = 1]))
    [] ev.e = "peer" -> IF ev.c \notin DOMAIN xs THEN No("strayDatagram")
                        ELSE LET x == xs[ev.c] IN
                             IF ~EncodeOf(x.p).ok THEN No("sentUnencodable")
                             ELSE IF B(ev.b) # Datagram(x) THEN No("wrongDatagram")
                             ELSE IF x.n > 0 THEN No("sentTwice")
                             ELSE OK(Put(ev.c, [(IF x.pc = "called" THEN Transmit(x) ELSE x) EXCEPT !.n = 1]))
    [] ev.e = "answer" -> IF xs[ev.c].pc = "done" THEN OK(xs)
                          ELSE OK(Put(ev.c, IF ev.from = "peer" THEN Arrives([xs[ev.c] EXCEPT !.first = IF xs[ev.c].inbox = <<>> THEN ev.at ELSE @], B(ev.b)) ELSE ArrivesForeign(xs[ev.c], B(ev.b))))
    [] ev.e = "result" -> OnResult(xs[ev.c], ev)
    [] ev.e = "waiting" -> LET x == xs[ev.c] IN       \* after a long time without an end
                           IF x.pc = "done" \/ (x.inbox = <<>> /\ ~x.timed /\ EncodeOf(x.p).ok) THEN OK(xs) ELSE No("noResult")
    [] ev.e = "over" -> IF \A c \in DOMAIN xs : EncodeOf(xs[c].p).ok /\ ~xs[c].gone /\ ~Short(xs[c]) => xs[c].n = 1 THEN OK(xs) ELSE No("notSent")

Init == si \in 1..Len(Sessions) /\ l = 1 /\ xs = <<>>
Step == /\ l <= Len(Sessions[si].ev)
        /\ LET r == Apply(Sessions[si].ev[l]) IN
           /\ ~r.ok => PrintT(<<"REJECTED", si, l, r.why>>)
           /\ r.ok /\ xs' = r.xs
        /\ l' = l + 1 /\ UNCHANGED si
Cursor == <<si, l>>                     \* the state is a function of the position in the trace
Spec == Init /\ [][Step]_vars
=============================================================================
