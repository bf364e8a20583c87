-------------------------------- MODULE Wire --------------------------------
(* The RADIUS datagram: layout, decoding, encoding, authenticators and      *)
(* authenticity verdicts (RFC 2865 section 3, RFC 2866 section 3, RFC 5176  *)
(* section 2.3), as operators on sequences of octets.  Every quantity that  *)
(* bounds the format is a parameter, so that TLC can enumerate a scaled     *)
(* down format exhaustively (MCWire) and the same definitions, instantiated *)
(* with the real constants (Radius.tla), judge the implementation.          *)
(*                                                                          *)
(* A packet is [code, id, auth, secret, attrs]; attrs is a sequence of      *)
(* [t |-> type, v |-> octets].                                              *)
EXTENDS Naturals, Sequences

CONSTANTS ByteBase,      \* number of values of an octet (256)
          AuthLen,       \* length of the authenticator (16)
          MaxPacket,     \* maximum packet length (4096)
          MaxValue,      \* maximum attribute value length (253)
          PlainRequest,  \* requests that carry their own random authenticator
          SealedRequest, \* requests whose authenticator is a digest over zeros
          Response,      \* packets whose authenticator is a digest over the request's
          OtherKnown,    \* known packet types that have no encoding
          InvalidCode,   \* the packet type that unknown type octets read as
          Digest(_)      \* the hash function

HeaderLen == 4 + AuthLen
Byte      == 0..(ByteBase - 1)
KnownCode == PlainRequest \cup SealedRequest \cup Response \cup OtherKnown \cup {InvalidCode}
Encodable == PlainRequest \cup SealedRequest \cup Response
ReadCode(o) == IF o \in KnownCode THEN o ELSE InvalidCode

Zeros(n) == [i \in 1..n |-> 0]
U16(hi, lo) == hi * ByteBase + lo
LenField(bs) == U16(bs[3], bs[4])
Take(bs, n) == SubSeq(bs, 1, n)
Drop(bs, n) == SubSeq(bs, n + 1, Len(bs))

----------------------------------------------------------------------------
(* Attributes.                                                              *)

AttrBytes(a) == <<a.t, Len(a.v) + 2>> \o a.v

RECURSIVE AttrsBytesFrom(_, _)
AttrsBytesFrom(attrs, i) ==
  IF i > Len(attrs) THEN <<>> ELSE AttrBytes(attrs[i]) \o AttrsBytesFrom(attrs, i + 1)
AttrsBytes(attrs) == AttrsBytesFrom(attrs, 1)

RECURSIVE AttrsSizeFrom(_, _)
AttrsSizeFrom(attrs, i) ==
  IF i > Len(attrs) THEN 0 ELSE Len(attrs[i].v) + 2 + AttrsSizeFrom(attrs, i + 1)
AttrsSize(attrs) == AttrsSizeFrom(attrs, 1)

(* The octets bs[i..n] as attributes: a sequence of attributes, or failure. *)
RECURSIVE ParseAttrs(_, _, _, _)
ParseAttrs(bs, i, n, acc) ==
  IF i > n THEN [ok |-> TRUE, attrs |-> acc]
  ELSE IF i = n THEN [ok |-> FALSE]
  ELSE LET len == bs[i + 1] IN
       IF len < 2 \/ i + len - 1 > n THEN [ok |-> FALSE]
       ELSE ParseAttrs(bs, i + len, n, Append(acc, [t |-> bs[i], v |-> SubSeq(bs, i + 2, i + len - 1)]))

----------------------------------------------------------------------------
(* Decoding.  On failure, errs are the kinds of error that may be reported. *)

TooShort == "InsufficientPacketPayloadLengthError"
LenSmall == "InsufficientHeaderDefinedPacketLengthError"
LenLarge == "HeaderDefinedPacketLengthExceedsMaximumLimitError"
BadAttrs == "DecodingError"

DecodeErrs(bs) ==
  IF Len(bs) < HeaderLen THEN {TooShort}
  ELSE LET len == LenField(bs) IN
       (IF len < HeaderLen THEN {LenSmall} ELSE {})
       \cup (IF len > MaxPacket THEN {LenLarge} ELSE {})
       \cup (IF Len(bs) < len THEN {TooShort} ELSE {})
       \cup (IF len >= HeaderLen /\ len <= Len(bs) /\ ~ParseAttrs(bs, HeaderLen + 1, len, <<>>).ok
             THEN {BadAttrs} ELSE {})

Decode(bs, secret) ==
  LET errs == DecodeErrs(bs) IN
  IF errs # {} THEN [ok |-> FALSE, errs |-> errs]
  ELSE [ok |-> TRUE,
        packet |-> [code   |-> ReadCode(bs[1]),
                    id     |-> bs[2],
                    auth   |-> SubSeq(bs, 5, HeaderLen),
                    secret |-> secret,
                    attrs  |-> ParseAttrs(bs, HeaderLen + 1, LenField(bs), <<>>).attrs]]

----------------------------------------------------------------------------
(* Encoding.                                                                *)

EncodeErrs(p) ==
  (IF (\E i \in 1..Len(p.attrs) : Len(p.attrs[i].v) > MaxValue)
      \/ HeaderLen + AttrsSize(p.attrs) > MaxPacket
   THEN {"EncodingError"} ELSE {})
  \cup (IF p.code \notin Encodable THEN {"UnknownCodeError"} ELSE {})

Header4(p) == LET n == HeaderLen + AttrsSize(p.attrs)
              IN  <<p.code, p.id, n \div ByteBase, n % ByteBase>>

(* The authenticator field as sent. *)
Sealed(head4, mid, body, secret) == Digest(head4 \o mid \o body \o secret)

WireAuth(p) ==
  CASE p.code \in PlainRequest  -> p.auth
    [] p.code \in SealedRequest -> Sealed(Header4(p), Zeros(AuthLen), AttrsBytes(p.attrs), p.secret)
    [] p.code \in Response      -> Sealed(Header4(p), p.auth, AttrsBytes(p.attrs), p.secret)

Encode(p) ==
  LET errs == EncodeErrs(p) IN
  IF errs # {} THEN [ok |-> FALSE, errs |-> errs]
  ELSE [ok |-> TRUE, bytes |-> Header4(p) \o WireAuth(p) \o AttrsBytes(p.attrs)]

MakeResponse(p, code) == [p EXCEPT !.code = code, !.attrs = <<>>]

----------------------------------------------------------------------------
(* Authenticity.  Octets beyond the length field are padding.  Where the    *)
(* length field itself is invalid (the datagram cannot be decoded anyway)   *)
(* the verdict on a digest is left open: Verdicts may have two elements.    *)

ValidLen(bs) == LenField(bs) >= HeaderLen /\ LenField(bs) <= Len(bs)
Unpadded(bs) == IF ValidLen(bs) THEN Take(bs, LenField(bs)) ELSE bs

DigestOK(bs, mid, secret) ==
  LET u == Unpadded(bs) IN
  SubSeq(u, 5, HeaderLen) = Sealed(Take(u, 4), mid, Drop(u, HeaderLen), secret)

RequestVerdicts(bs, secret) ==
  IF Len(bs) < HeaderLen \/ secret = <<>> THEN {FALSE}
  ELSE CASE ReadCode(bs[1]) \in PlainRequest -> {TRUE}
         [] ReadCode(bs[1]) \in SealedRequest ->
              {DigestOK(bs, Zeros(AuthLen), secret)} \cup (IF ValidLen(bs) THEN {} ELSE {FALSE})
         [] OTHER -> {FALSE}

ResponseVerdicts(resp, req, secret) ==
  IF Len(resp) < HeaderLen \/ Len(req) < HeaderLen \/ secret = <<>> THEN {FALSE}
  ELSE {DigestOK(resp, SubSeq(req, 5, HeaderLen), secret)} \cup (IF ValidLen(resp) THEN {} ELSE {FALSE})

AuthenticRequest(bs, secret)        == RequestVerdicts(bs, secret) = {TRUE}
AuthenticResponse(resp, req, secret) == ResponseVerdicts(resp, req, secret) = {TRUE}
=============================================================================
