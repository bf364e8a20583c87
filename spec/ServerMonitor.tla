---------------------------- MODULE ServerMonitor ---------------------------
(* What a server may be observed to do: the externally visible behaviours   *)
(* of Server.tla as a deterministic monitor over the events that a driver   *)
(* records.  MCServer checks that the monitor accepts every behaviour of    *)
(* the specified server and rejects behaviours of each faulty one, so a     *)
(* recorded trace is judged by the monitor in time linear in its length.    *)
(*                                                                          *)
(* Events (each a record with field e):                                     *)
(*   cfg      skip, buf: validation switch and buffer size as set           *)
(*   run      the server is about to be run                                 *)
(*   trigger  the shutdown trigger is about to complete                     *)
(*   returned running the server has returned (res)                         *)
(*   send     d, key, tok, acc: a datagram is about to be sent; acc says    *)
(*            whether it is acceptable: "yes", "no" or "either"             *)
(*   start    h, key, tok: a handler has been invoked                       *)
(*   end      h: handler h is about to end                                  *)
(*   aborted  h: handler h was dropped before it ended                      *)
(*   reply    h, tok; recv  src, tok: a reply is about to be sent / arrived *)
(*   settled  everything sent so far has been taken care of                 *)
(*   laps     n, handled: n acceptable requests of one source, each sent    *)
(*            when the one before had been handled, and how many were       *)
(*   advance  ms: the server's clocks are put forward; the specified server  *)
(*            has no notion of time, so nothing may depend on it            *)
(*                                                                          *)
(* pend holds the acceptable datagrams whose fate has not been seen:        *)
(*   may  the datagram may have been dropped as a duplicate                 *)
(*   q    it was sent while the server was not running                      *)
EXTENDS Naturals, Sequences, FiniteSets

MonInit == [ok |-> TRUE, why |-> {}, run |-> "off", pend |-> {}, act |-> {}, fin |-> {}, used |-> {},
            gone |-> {}, toks |-> {}, replies |-> {}, runs |-> 0, stopped |-> FALSE, badkeys |-> {}]

(* why: what is wrong, and the circumstances that say which property it breaks *)
Bad(m, why) == [m EXCEPT !.ok = FALSE,
                         !.why = {why} \cup (IF m.stopped THEN {"afterShutdown"} ELSE {}) \cup (IF m.badkeys # {} THEN {"afterBad"} ELSE {})
                                 \cup (IF m.act = {} THEN {"idle"} ELSE {})]
BadReuse(m, why) == [Bad(m, why) EXCEPT !.why = @ \cup {"reuse"}]
ActKeys(m) == {a.key : a \in m.act}
Busy(m) == ActKeys(m) \cup m.fin
Mark(m) == [m EXCEPT !.pend = {[p EXCEPT !.may = @ \/ (~p.q /\ p.key \in Busy(m))] : p \in m.pend}]

OnSend(m, ev) ==
  LET m1 == [m EXCEPT !.toks = @ \cup {<<ev.key, ev.tok>>}, !.used = @ \cup {ev.key}] IN
  IF ev.acc = "no" THEN [m EXCEPT !.used = @ \cup {ev.key}, !.badkeys = @ \cup {ev.key}]
  ELSE Mark([m1 EXCEPT !.pend = @ \cup {[d |-> ev.d, key |-> ev.key, tok |-> ev.tok, q |-> m.run = "off",
                                         may |-> ev.acc = "either", reuse |-> ev.key \in m.used]}])

Candidates(m, ev) == {p \in m.pend : p.key = ev.key /\ p.tok = ev.tok}
OnStart(m, ev) ==
  LET live == {p \in Candidates(m, ev) : ~p.q} IN
  IF ev.key \in ActKeys(m) THEN Bad(m, "overlap")
  ELSE IF live = {} THEN
     Bad(m, IF Candidates(m, ev) # {} THEN "startWhileOff"
            ELSE IF <<ev.key, ev.tok>> \in m.gone THEN "duplicateHandled"
            ELSE IF <<ev.key, ev.tok>> \in m.toks THEN "handledTwice"
            ELSE IF ev.key \notin m.badkeys THEN "wrongContent"
            ELSE IF ev.key \in {k[1] : k \in m.toks} THEN "ungatedOrWrongContent" ELSE "ungated")
  ELSE LET p == CHOOSE p \in live : \A r \in live : p.d <= r.d
       IN  Mark([m EXCEPT !.pend = @ \ {p}, !.act = @ \cup {[h |-> ev.h, key |-> ev.key]}, !.fin = @ \ {ev.key}])

OnEnd(m, ev) ==
  LET a == {x \in m.act : x.h = ev.h} IN
  IF a = {} THEN Bad(m, "driver")
  ELSE [m EXCEPT !.act = @ \ a, !.fin = @ \cup {x.key : x \in a}]

OnSettled(m) ==
  IF m.run = "stop" THEN Bad(m, "driver")
  ELSE IF m.run = "off" THEN [m EXCEPT !.fin = {}]
  ELSE LET lost == {p \in m.pend : ~p.may} IN
       IF lost # {} THEN (IF \E p \in lost : p.reuse THEN BadReuse(m, "missing") ELSE Bad(m, "missing"))
       ELSE [m EXCEPT !.gone = @ \cup {<<p.key, p.tok>> : p \in m.pend}, !.pend = {}, !.fin = {}]

MonStep(m, ev) ==
  CASE ~m.ok -> m
    [] ev.e = "run"      -> IF m.run # "off" THEN Bad(m, "driver")
                            ELSE LET m1 == [m EXCEPT !.run = "on", !.runs = @ + 1,
                                                     !.pend = {[p EXCEPT !.q = FALSE] : p \in m.pend}]
                                 IN Mark(m1)
    [] ev.e = "trigger"  -> [m EXCEPT !.run = "stop", !.stopped = TRUE]
    [] ev.e = "returned" -> IF m.run # "stop" THEN Bad(m, "returnedEarly")
                            ELSE IF ev.res # "ok" THEN Bad(m, "returnedError") ELSE [m EXCEPT !.run = "off"]
    [] ev.e = "notreturned" -> Bad(m, "notReturned")
    [] ev.e = "send"     -> OnSend(m, ev)
    [] ev.e = "start"    -> OnStart(m, ev)
    [] ev.e = "end"      -> OnEnd(m, ev)
    [] ev.e = "aborted"  -> Bad(m, "aborted")
    [] ev.e = "reply"    -> IF ev.res # "ok" THEN Bad(m, "replyFailed") ELSE [m EXCEPT !.replies = @ \cup {<<ev.src, ev.tok>>}]
    [] ev.e = "recv"     -> IF <<ev.src, ev.tok>> \in m.replies THEN m ELSE Bad(m, "unexpectedReply")
    [] ev.e = "noend"    -> Bad(m, "aborted")
    [] ev.e = "deaf"     -> Bad(m, "missing")
    [] ev.e = "listenfailed" -> Bad(m, "missing")
    [] ev.e = "noreply"  -> Bad(m, "replyLost")
    [] ev.e = "settled"  -> OnSettled(m)
    [] ev.e = "advance"  -> m
    [] ev.e = "laps"     -> IF ev.handled = ev.n THEN m ELSE BadReuse(m, "missing")
    [] OTHER -> m
=============================================================================
