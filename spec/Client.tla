------------------------------- MODULE Client -------------------------------
(* One exchange of the client (radius/src/client.rs: send_packet): encode,  *)
(* send once, take the first datagram that comes from the server's address  *)
(* or give up when the socket timeout has expired.                          *)
(*                                                                          *)
(* The exchange is a record; the operators below are its steps, so that     *)
(* MCClient composes them with every environment and TraceClient with the   *)
(* recorded ones.                                                           *)
(*   pc     "called", "sent", "done"                                        *)
(*   inbox  datagrams from the server that have arrived, in order           *)
(*   fired  the socket timeout has expired                                  *)
(*   gone   the server's port is closed: the network may report it          *)
(* Encoding, decoding and verification are parameters.                      *)
EXTENDS Naturals, Sequences

CONSTANTS EncodeOf(_),            \* request -> [ok, bytes]
          Answer(_, _, _)         \* datagram, request, bytes sent -> [ok, packet]: the authentic response, or not

Call(p, timed, gone) == [p |-> p, pc |-> "called", inbox |-> <<>>, fired |-> FALSE, timed |-> timed, gone |-> gone, res |-> [kind |-> "none"]]

CanTransmit(x) == x.pc = "called" /\ EncodeOf(x.p).ok
Datagram(x) == EncodeOf(x.p).bytes
Transmit(x) == [x EXCEPT !.pc = "sent"]

Arrives(x, b) == [x EXCEPT !.inbox = Append(@, b)]          \* from the server's address
ArrivesForeign(x, b) == x                                    \* from any other: no effect
Expire(x) == [x EXCEPT !.fired = x.timed]

(* The results an exchange may have now.                                    *)
Results(x) ==
  IF x.pc = "called" THEN (IF EncodeOf(x.p).ok THEN {} ELSE {[kind |-> "encode"]})
  ELSE IF x.pc = "done" THEN {}
  ELSE (IF x.inbox = <<>> THEN {}
        ELSE LET a == Answer(x.inbox[1], x.p, Datagram(x)) IN
             {IF a.ok THEN [kind |-> "ok", packet |-> a.packet] ELSE [kind |-> "decode"]})
       \cup (IF x.fired THEN {[kind |-> "timeout"]} ELSE {})
       \cup (IF x.gone THEN {[kind |-> "recv"], [kind |-> "send"]} ELSE {})
Finish(x, r) == [x EXCEPT !.pc = "done", !.res = r]
=============================================================================
