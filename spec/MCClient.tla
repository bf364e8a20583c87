------------------------------ MODULE MCClient ------------------------------
(* The client against every environment: answers that are authentic for     *)
(* this request ("good1", "good2"), forged, replayed for another request,   *)
(* foreign ones, and timeouts, in every order.                              *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Variant, MaxMsg
Reqs == {"r1", "rbad"}                     \* rbad has no encoding
Msgs == {"good1", "good2", "forged", "replay"}
EncodeOf(p) == [ok |-> p # "rbad", bytes |-> <<p>>]
Answer(b, p, q) == [ok |-> b \in {"good1", "good2"} \/ (Variant = "trusting"), packet |-> b]
INSTANCE Client

VARIABLES x, wire, came, foreign
vars == <<x, wire, came, foreign>>
Init == /\ \E p \in Reqs, t \in BOOLEAN, g \in BOOLEAN : x = Call(p, t, g)
        /\ wire = <<>> /\ came = <<>> /\ foreign = {}
DoTransmit == CanTransmit(x) /\ wire' = Append(wire, Datagram(x)) /\ x' = Transmit(x) /\ UNCHANGED <<came, foreign>>
(* a faulty client sends again when the timeout has expired *)
DoResend == Variant = "resend" /\ x.pc = "sent" /\ x.fired /\ Len(wire) < 2 /\ wire' = Append(wire, Datagram(x)) /\ UNCHANGED <<x, came, foreign>>
DoArrive == /\ wire # <<>> /\ ~x.gone /\ Len(came) < MaxMsg
            /\ \E b \in Msgs : came' = Append(came, b) /\ x' = IF x.pc = "done" THEN x ELSE Arrives(x, b)
            /\ UNCHANGED <<wire, foreign>>
(* at any time: also while the client's socket is not yet connected, when a *)
(* faulty client takes it for an answer                                     *)
DoForeign == /\ Cardinality(foreign) < 2
             /\ \E b \in Msgs : foreign' = foreign \cup {b}
                  /\ x' = IF x.pc = "done" THEN x
                          ELSE IF Variant = "unconnected" \/ (Variant = "early" /\ x.pc = "called") THEN Arrives(x, b)
                          ELSE ArrivesForeign(x, b)
             /\ UNCHANGED <<wire, came>>
DoExpire == x.pc = "sent" /\ ~x.fired /\ x.timed /\ x' = Expire(x) /\ UNCHANGED <<wire, came, foreign>>
(* a faulty client skips what is not authentic and takes a later answer *)
DoSkip == Variant = "skipping" /\ x.pc = "sent" /\ x.inbox # <<>> /\ ~Answer(x.inbox[1], x.p, <<>>).ok
          /\ x' = [x EXCEPT !.inbox = Tail(@)] /\ UNCHANGED <<wire, came, foreign>>
DoFinish == \E r \in Results(x) : x' = Finish(x, r) /\ UNCHANGED <<wire, came, foreign>>
Next == DoTransmit \/ DoResend \/ DoArrive \/ DoForeign \/ DoExpire \/ DoSkip \/ DoFinish
Spec == Init /\ [][Next]_vars /\ WF_vars(DoTransmit \/ DoFinish) /\ WF_vars(DoExpire)

(* C18 *)
SentOnce == Len(wire) <= 1 /\ (x.p = "rbad" => wire = <<>>) /\ (x.pc # "called" /\ x.p # "rbad" => Len(wire) = 1)
FirstDecides == x.res.kind \in {"ok", "decode"} =>
                  came # <<>> /\ (x.res.kind = "ok") = (came[1] \in {"good1", "good2"})
                  /\ (x.res.kind = "ok" => x.res.packet = came[1])
EncodeErr == x.pc = "done" => (x.res.kind = "encode") = (x.p = "rbad")
NoEarlyTimeout == x.res.kind = "timeout" => x.timed /\ x.fired
(* C19 *)
OnlyAuthentic == x.res.kind = "ok" => x.res.packet \in {"good1", "good2"} /\ \E i \in 1..Len(came) : came[i] = x.res.packet
Ends == x.timed ~> (x.pc = "done")
=============================================================================
