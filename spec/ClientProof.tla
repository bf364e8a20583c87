---------------------------- MODULE ClientProof ----------------------------
(* The specified client in every environment, with any requests, any        *)
(* messages and any number of them: C18 and C19 as stated in MCClient are   *)
(* proved invariant (TLAPS), whatever encoding and verification are.        *)
EXTENDS Naturals, Sequences, TLAPS

CONSTANTS Req, Msg, EncodeOf(_), Answer(_, _, _)
INSTANCE Client

VARIABLES x,        \* the exchange
          wire,     \* what the client has sent
          came,     \* what the server's address has sent to the client
          foreign   \* what others have sent to it
vars == <<x, wire, came, foreign>>
Init == /\ \E p \in Req, t \in BOOLEAN, g \in BOOLEAN : x = Call(p, t, g)
        /\ wire = <<>> /\ came = <<>> /\ foreign = {}
DoTransmit == CanTransmit(x) /\ wire' = Append(wire, Datagram(x)) /\ x' = Transmit(x) /\ UNCHANGED <<came, foreign>>
DoArrive == /\ wire # <<>>
            /\ \E b \in Msg : came' = Append(came, b) /\ x' = IF x.pc = "done" THEN x ELSE Arrives(x, b)
            /\ UNCHANGED <<wire, foreign>>
DoForeign == /\ \E b \in Msg : foreign' = foreign \cup {b} /\ x' = IF x.pc = "done" THEN x ELSE ArrivesForeign(x, b)
             /\ UNCHANGED <<wire, came>>
DoExpire == x.pc = "sent" /\ ~x.fired /\ x.timed /\ x' = Expire(x) /\ UNCHANGED <<wire, came, foreign>>
DoFinish == \E r \in Results(x) : x' = Finish(x, r) /\ UNCHANGED <<wire, came, foreign>>
Next == DoTransmit \/ DoArrive \/ DoForeign \/ DoExpire \/ DoFinish
Spec == Init /\ [][Next]_vars

Ok(b) == Answer(b, x.p, Datagram(x)).ok
Shape == /\ x \in [p : Req, pc : {"called", "sent", "done"}, inbox : Seq(Msg), fired : BOOLEAN, timed : BOOLEAN, gone : BOOLEAN,
                   res : [kind : {"none", "encode", "decode", "timeout", "recv", "send"}] \cup [kind : {"ok"}, packet : {Answer(b, x.p, Datagram(x)).packet : b \in Msg}]]
         /\ came \in Seq(Msg) /\ wire \in {<<>>, <<Datagram(x)>>}

(* C18 *)
SentOnce == Len(wire) <= 1 /\ (~EncodeOf(x.p).ok => wire = <<>>) /\ (x.pc # "called" /\ EncodeOf(x.p).ok => wire = <<Datagram(x)>>)
FirstDecides == x.res.kind \in {"ok", "decode"} =>
                  came # <<>> /\ (x.res.kind = "ok" <=> Ok(came[1]) = TRUE)
                  /\ (x.res.kind = "ok" => x.res.packet = Answer(came[1], x.p, Datagram(x)).packet)
EncodeErr == x.pc = "done" => (x.res.kind = "encode" <=> EncodeOf(x.p).ok = FALSE)
NoEarlyTimeout == x.res.kind = "timeout" => x.timed /\ x.fired
(* C19 *)
OnlyAuthentic == x.res.kind = "ok" => \E i \in 1..Len(came) : Ok(came[i]) /\ x.res.packet = Answer(came[i], x.p, Datagram(x)).packet

Inv == /\ Shape /\ SentOnce /\ FirstDecides /\ EncodeErr /\ NoEarlyTimeout
       /\ x.pc # "done" => x.inbox = came /\ x.res = [kind |-> "none"]
       /\ x.fired => x.timed
       /\ x.pc = "sent" => EncodeOf(x.p).ok
       /\ x.pc = "called" => wire = <<>> /\ came = <<>>

ASSUME Types == /\ \A p \in Req : EncodeOf(p).ok \in BOOLEAN
                /\ \A b \in Msg, p \in Req : Answer(b, p, EncodeOf(p).bytes).ok \in BOOLEAN

LEMMA Init0 == Init => Inv
  BY Types DEF Init, Call, Inv, Shape, SentOnce, FirstDecides, EncodeErr, NoEarlyTimeout

LEMMA Step == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1> USE Types
<1>1. CASE UNCHANGED vars
  BY <1>1 DEF vars, Inv, Shape, SentOnce, FirstDecides, EncodeErr, NoEarlyTimeout, Ok, Datagram
<1>2. CASE DoTransmit
  <2>1. /\ x.pc = "called" /\ EncodeOf(x.p).ok /\ wire = <<>> /\ came = <<>>
        /\ x' = [x EXCEPT !.pc = "sent"] /\ wire' = <<Datagram(x)>> /\ UNCHANGED <<came, foreign>>
    BY <1>2 DEF DoTransmit, CanTransmit, Transmit, Inv
  <2>2. Shape'
    BY <2>1 DEF Inv, Shape, Datagram
  <2>3. SentOnce' /\ FirstDecides' /\ EncodeErr' /\ NoEarlyTimeout'
    BY <2>1 DEF Inv, Shape, SentOnce, FirstDecides, EncodeErr, NoEarlyTimeout, Datagram
  <2> QED BY <2>1, <2>2, <2>3 DEF Inv, Shape
<1>3. CASE DoArrive
  <2>1. PICK b \in Msg : came' = Append(came, b) /\ x' = (IF x.pc = "done" THEN x ELSE Arrives(x, b))
    BY <1>3 DEF DoArrive
  <2>2. wire # <<>> /\ UNCHANGED wire /\ x.pc # "called"
    BY <1>3 DEF DoArrive, Inv
  <2>3. came # <<>> => came'[1] = came[1]
    BY <2>1 DEF Inv, Shape
  <2>4. came' \in Seq(Msg) /\ x'.p = x.p /\ x'.pc = x.pc /\ x'.res = x.res /\ x'.fired = x.fired /\ x'.timed = x.timed
    BY <2>1 DEF Inv, Shape, Arrives
  <2>5. Shape'
    BY <2>1, <2>2, <2>4 DEF Inv, Shape, Arrives, Datagram
  <2>6. FirstDecides'
    BY <2>1, <2>3, <2>4 DEF Inv, Shape, FirstDecides, Ok, Datagram
  <2>7. SentOnce' /\ EncodeErr' /\ NoEarlyTimeout'
    BY <2>2, <2>4 DEF Inv, SentOnce, EncodeErr, NoEarlyTimeout, Datagram
  <2>8. x'.pc # "done" => x'.inbox = came' /\ x'.res = [kind |-> "none"]
    BY <2>1, <2>4 DEF Inv, Shape, Arrives
  <2> QED BY <2>2, <2>4, <2>5, <2>6, <2>7, <2>8 DEF Inv
<1>4. CASE DoForeign
  <2>1. UNCHANGED <<x, wire, came>>
    BY <1>4 DEF DoForeign, ArrivesForeign
  <2> QED BY <2>1 DEF Inv, Shape, SentOnce, FirstDecides, EncodeErr, NoEarlyTimeout, Ok, Datagram
<1>5. CASE DoExpire
  BY <1>5 DEF DoExpire, Expire, Inv, Shape, SentOnce, FirstDecides, EncodeErr, NoEarlyTimeout, Ok, Datagram
<1>6. CASE DoFinish
  <2>1. PICK r \in Results(x) : x' = [x EXCEPT !.pc = "done", !.res = r] /\ UNCHANGED <<wire, came, foreign>>
    BY <1>6 DEF DoFinish, Finish
  <2>2. x.pc \in {"called", "sent"}
    BY <2>1 DEF Results, Inv, Shape
  <2>3. CASE x.pc = "called"
    <3>1. EncodeOf(x.p).ok = FALSE /\ r = [kind |-> "encode"]
      BY <2>1, <2>3 DEF Results, Inv, Shape
    <3>2. x'.p = x.p /\ x'.pc = "done" /\ x'.res = r /\ x'.fired = x.fired /\ x'.timed = x.timed /\ Datagram(x)' = Datagram(x)
      BY <2>1 DEF Inv, Shape, Datagram
    <3>3. Shape'
      BY <2>1, <3>1, <3>2 DEF Inv, Shape
    <3>4. SentOnce' /\ FirstDecides' /\ EncodeErr' /\ NoEarlyTimeout'
      BY <2>1, <2>3, <3>1, <3>2 DEF Inv, SentOnce, FirstDecides, EncodeErr, NoEarlyTimeout
    <3> QED BY <2>1, <3>2, <3>3, <3>4 DEF Inv
  <2>4. CASE x.pc = "sent"
    <3>0. x.inbox = came /\ came \in Seq(Msg) /\ EncodeOf(x.p).ok /\ x.p \in Req /\ (came # <<>> => came[1] \in Msg)
      BY <2>4 DEF Inv, Shape, SentOnce
    <3> DEFINE a == Answer(came[1], x.p, Datagram(x))
    <3>1. came # <<>> => a.ok \in BOOLEAN
      BY <3>0 DEF Datagram
    <3>2. \/ came # <<>> /\ a.ok = TRUE /\ r = [kind |-> "ok", packet |-> a.packet]
          \/ came # <<>> /\ a.ok = FALSE /\ r = [kind |-> "decode"]
          \/ x.fired /\ r = [kind |-> "timeout"]
          \/ r \in {[kind |-> "recv"], [kind |-> "send"]}
      BY <2>1, <2>4, <3>0, <3>1 DEF Results
    <3>3. x'.p = x.p /\ x'.pc = "done" /\ x'.res = r /\ x'.fired = x.fired /\ x'.timed = x.timed /\ Datagram(x)' = Datagram(x)
      BY <2>1 DEF Inv, Shape, Datagram
    <3>4. Shape'
      BY <2>1, <3>0, <3>2, <3>3 DEF Inv, Shape
    <3>5. SentOnce' /\ EncodeErr' /\ NoEarlyTimeout'
      BY <2>1, <2>4, <3>0, <3>2, <3>3 DEF Inv, SentOnce, EncodeErr, NoEarlyTimeout
    <3>6. FirstDecides'
      BY <2>1, <3>0, <3>2, <3>3 DEF FirstDecides, Ok
    <3> QED BY <2>1, <3>3, <3>4, <3>5, <3>6 DEF Inv
  <2> QED BY <2>2, <2>3, <2>4
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6 DEF Next

THEOREM Safe == Spec => [](SentOnce /\ FirstDecides /\ EncodeErr /\ NoEarlyTimeout /\ OnlyAuthentic)
<1>1. Inv => OnlyAuthentic
  BY DEF Inv, Shape, FirstDecides, OnlyAuthentic
<1>2. Inv => SentOnce /\ FirstDecides /\ EncodeErr /\ NoEarlyTimeout
  BY DEF Inv
<1> QED BY Init0, Step, <1>1, <1>2, PTL DEF Spec
=============================================================================
