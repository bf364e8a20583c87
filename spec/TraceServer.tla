----------------------------- MODULE TraceServer ----------------------------
(* Validates recorded runs of a real server (harness/src/net.rs) against    *)
(* the specification: the octets of each datagram are classified by Wire    *)
(* under the secret the provider gives for its source, and the events must  *)
(* be accepted by ServerMonitor.                                            *)
EXTENDS Radius, ServerMonitor, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES si, l, m, env
vars == <<si, l, m, env>>

B(s) == HexBytes(s)
DefaultBuffer == 1500

(* The packet as its handler sees it: values grouped by attribute type, and *)
(* its re-encoding, which shows the order of the attributes.                *)
TypesOf(attrs) == {attrs[i].t : i \in 1..Len(attrs)}
RECURSIVE ValsFrom(_, _, _)
ValsFrom(attrs, t, i) == IF i > Len(attrs) THEN <<>>
                         ELSE (IF attrs[i].t = t THEN <<attrs[i].v>> ELSE <<>>) \o ValsFrom(attrs, t, i + 1)
Content(p) == [code |-> p.code, id |-> p.id, auth |-> p.auth, secret |-> p.secret,
               vals |-> {<<t, ValsFrom(p.attrs, t, 1)>> : t \in TypesOf(p.attrs)},
               enc |-> LET e == Encode(p) IN IF e.ok THEN e.bytes ELSE <<>>]
ContentSeen(p) == [code |-> p.code, id |-> p.id, auth |-> B(p.auth), secret |-> B(p.secret),
                   vals |-> {<<p.attrs[i].t, [j \in 1..Len(p.attrs[i].vs) |-> B(p.attrs[i].vs[j])]>> : i \in 1..Len(p.attrs)},
                   enc |-> B(p.enc)]

(* What becomes of a datagram: the first buffer-size octets are received.   *)
Secret(e, s) == IF s \in DOMAIN e.secrets THEN e.secrets[s] ELSE [v |-> "err", b |-> <<>>]
Classify(e, s, bs0) ==
  LET bs  == IF Len(bs0) > e.buf THEN Take(bs0, e.buf) ELSE bs0
      sec == Secret(e, s)
      d   == Decode(bs, sec.b)
      ok  == /\ sec.v = "ok" /\ sec.b # <<>>
             /\ e.skip \/ AuthenticRequest(bs, sec.b)
             /\ d.ok
  IN  IF ~ok THEN [acc |-> "no", tok |-> <<>>, id |-> IF Len(bs) > 1 THEN bs[2] ELSE -1]
      ELSE [acc |-> IF Len(bs0) > e.buf THEN "either" ELSE "yes", tok |-> Content(d.packet), id |-> d.packet.id]

(* The recorded event as an event of the monitor.                           *)
Event(e, ev) ==
  CASE ev.e = "send" -> LET c == Classify(e, ev.s, B(ev.b))
                        IN [e |-> "send", d |-> ev.d, key |-> <<ev.s, c.id>>, tok |-> c.tok, acc |-> c.acc]
    [] ev.e = "start" -> [e |-> "start", h |-> ev.h, key |-> <<ev.s, ev.p.id>>,
                          tok |-> IF ev.laddr = e.addr /\ ev.s >= 0 THEN ContentSeen(ev.p) ELSE [ContentSeen(ev.p) EXCEPT !.code = -1]]   \* another address
    [] ev.e = "reply" -> [e |-> "reply", src |-> ev.s, tok |-> ev.b, res |-> ev.res]
    [] ev.e = "recv"  -> [e |-> "recv", src |-> IF ev.from THEN ev.s ELSE -1, tok |-> ev.b]
    [] OTHER -> ev
EnvStep(e, ev) ==
  CASE ev.e = "secret" -> [e EXCEPT !.secrets = [x \in DOMAIN @ \cup {ev.s} |-> IF x = ev.s THEN [v |-> ev.v, b |-> B(ev.b)] ELSE @[x]]]
    [] ev.e = "cfg"    -> [e EXCEPT !.skip = IF ev.skip = -1 THEN @ ELSE ev.skip = 1, !.buf = IF ev.buf = -1 THEN @ ELSE ev.buf]
    [] ev.e = "listen" -> [e EXCEPT !.addr = ev.addr]
    [] OTHER -> e

Init == /\ si \in 1..Len(Sessions) /\ l = 1 /\ m = MonInit
        /\ env = [secrets |-> <<>>, skip |-> FALSE, buf |-> DefaultBuffer, addr |-> ""]
Done == l > Len(Sessions[si].ev)
Step == /\ ~Done
        /\ LET ev == Sessions[si].ev[l] IN
           /\ m' = MonStep(m, Event(env, ev))
           /\ env' = EnvStep(env, ev)
           /\ ~m'.ok => PrintT(<<"REJECTED", si, l, m'.why>>)
           /\ m'.ok
        /\ l' = l + 1 /\ UNCHANGED si
(* A rejected trace is reported (REJECTED) and the others go on.            *)
Next == Step
Cursor == <<si, l>>                     \* the state is a function of the position in the trace
Spec == Init /\ [][Next]_vars
=============================================================================
