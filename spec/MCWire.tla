------------------------------- MODULE MCWire -------------------------------
(* The datagram format, scaled down (octets 0..Base-1, one-octet            *)
(* authenticator) and explored exhaustively: every octet string up to       *)
(* MaxLen is a state.  The invariants compare the operators of Wire.tla     *)
(* with declarative statements of the properties C01-C05.                   *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Base, MaxLen, MaxPkt

(* An injective digest: the octets as a number in base Base+1.  Perfect     *)
(* hashing is the assumption under which tampering is always noticed.       *)
RECURSIVE Num(_, _)
Num(s, acc) == IF s = <<>> THEN acc ELSE Num(Tail(s), acc * (Base + 1) + Head(s) + 1)
PerfectDigest(s) == <<Base + Num(s, 0)>>

W == INSTANCE Wire WITH
  ByteBase <- Base, AuthLen <- 1, MaxPacket <- MaxPkt, MaxValue <- Base - 3,
  PlainRequest <- {1}, SealedRequest <- {2}, Response <- {3}, OtherKnown <- {}, InvalidCode <- 0,
  Digest <- PerfectDigest

VARIABLE bs
Init == bs = <<>>
(* Identifier and authenticator octets from {0,1}: they are only copied.    *)
Octets(i) == IF i \in {2, 5} THEN 0..1 ELSE 0..(Base - 1)
Next == Len(bs) < MaxLen /\ \E b \in Octets(Len(bs) + 1) : bs' = Append(bs, b)
Spec == Init /\ [][Next]_bs

S == <<1>>
D == W!Decode(bs, S)
H == W!HeaderLen
Field == bs[3] * Base + bs[4]

(* There are cut points that divide the attribute area into attributes      *)
(* whose length octets are the distances of the cuts.                       *)
Splits(n) ==
  \E C \in SUBSET (H..n) :
    /\ H \in C /\ n \in C
    /\ \A a \in C : a # n =>
         LET b == CHOOSE b \in C : b > a /\ \A c \in C : c > a => c >= b
         IN  b - a >= 2 /\ bs[a + 2] = b - a

DecodesExactly ==
  D.ok <=> /\ Len(bs) >= H
           /\ Field >= H /\ Field <= MaxPkt /\ Field <= Len(bs)
           /\ Splits(Field)

FieldsCopied ==
  D.ok => /\ D.packet.id = bs[2] /\ D.packet.auth = <<bs[5]>> /\ D.packet.secret = S
          /\ D.packet.code = IF bs[1] \in {1, 2, 3} THEN bs[1] ELSE 0
          /\ W!AttrsBytes(D.packet.attrs) = SubSeq(bs, H + 1, Field)

PaddingIgnored == D.ok => \A b \in 0..(Base - 1) : W!Decode(Append(bs, b), S) = D

ErrorsExplained == ~D.ok => D.errs # {}

(* Encoding a decoded packet and decoding it again.                         *)
RoundTrip ==
  D.ok /\ D.packet.code \in W!Encodable =>
    LET e == W!Encode(D.packet)
        d == W!Decode(e.bytes, S)
    IN  /\ e.ok /\ Len(e.bytes) = Field /\ e.bytes[3] * Base + e.bytes[4] = Len(e.bytes)
        /\ d.ok /\ d.packet = [D.packet EXCEPT !.auth = d.packet.auth]
        /\ D.packet.code = 1 => e.bytes = SubSeq(bs, 1, Field)
        /\ \A i \in 1..Len(e.bytes) : i # 5 => e.bytes[i] = bs[i]
        /\ D.packet.code = 2 => W!AuthenticRequest(e.bytes, S)
UndefinedTypesDoNotEncode == D.ok /\ D.packet.code = 0 => ~W!Encode(D.packet).ok

(* Longer attribute lists: never more than MaxPkt octets.                   *)
EncodeBounded ==
  D.ok /\ D.packet.code \in W!Encodable =>
    \A k \in 1..3 :
      LET p == [D.packet EXCEPT !.attrs = @ \o [i \in 1..k |-> [t |-> 0, v |-> <<0>>]]]
          e == W!Encode(p)
      IN  e.ok <=> Field + 3 * k <= MaxPkt
ValueBounded ==
  D.ok /\ D.packet.code \in W!Encodable =>
    ~W!Encode([D.packet EXCEPT !.attrs = <<[t |-> 1, v |-> [i \in 1..(Base - 2) |-> 0]]>>]).ok

(* Authenticity: a sealed request is what encoding yields; any other octet  *)
(* string of the same header is rejected, and other secrets reject it.      *)
SealedIffEncoded ==
  D.ok /\ D.packet.code = 2 =>
    LET e == W!Encode(D.packet) IN
    /\ W!AuthenticRequest(bs, S) <=> e.bytes = SubSeq(bs, 1, Field)
    /\ ~W!AuthenticRequest(e.bytes, <<2>>) /\ ~W!AuthenticRequest(e.bytes, <<1, 0>>) /\ ~W!AuthenticRequest(e.bytes, <<>>)
    /\ \A i \in 1..Len(e.bytes), b \in 0..(Base - 1) :
         b # e.bytes[i] =>
           LET m == [e.bytes EXCEPT ![i] = b]
           IN  (i # 1 => ~W!AuthenticRequest(m, S)) /\ (i = 1 /\ b # 1 => ~W!AuthenticRequest(m, S))
OtherTypesRejected == Len(bs) >= H /\ bs[1] \notin {1, 2} => W!RequestVerdicts(bs, S) = {FALSE}
PlainAccepted == Len(bs) >= H /\ bs[1] = 1 => W!RequestVerdicts(bs, S) = {TRUE}
ShortRejected == Len(bs) < H => W!RequestVerdicts(bs, S) = {FALSE} /\ W!ResponseVerdicts(bs, <<1,0,1,1,0>>, S) = {FALSE}

(* A response made for one request is authentic for it and no other.        *)
Req(a) == <<1, 0, 1, 1, a>>
ResponseBound ==
  D.ok /\ D.packet.code = 3 =>
    \A a \in 0..1 :
      LET p == [D.packet EXCEPT !.auth = <<a>>]
          e == W!Encode(p).bytes
      IN  /\ W!AuthenticResponse(e, Req(a), S)
          /\ ~W!AuthenticResponse(e, Req(1 - a), S)
          /\ ~W!AuthenticResponse(e, Req(a), <<0>>) /\ ~W!AuthenticResponse(e, Req(a), <<1, 1>>)
          /\ \A b \in 0..(Base - 1) : W!AuthenticResponse(Append(e, b), Req(a), S)
          /\ \A i \in 1..Len(e), b \in 0..(Base - 1) :
               b # e[i] => ~W!AuthenticResponse([e EXCEPT ![i] = b], Req(a), S)

(* Reachability (each must be violated: the antecedents are not vacuous).   *)
NeverSealedWithAttrs == ~(D.ok /\ D.packet.code = 2 /\ D.packet.attrs # <<>> /\ Field < Len(bs))
=============================================================================
