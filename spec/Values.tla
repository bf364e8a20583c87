------------------------------- MODULE Values -------------------------------
(* The formats of attribute values: how each kind of value is written as    *)
(* octets (Write) and read back (Read).  A value is given by its canonical  *)
(* octets: an integer, address or date by its big-endian octets, text by    *)
(* its UTF-8 octets, a password or octet string by itself.                  *)
(*                                                                          *)
(* Write yields [ok |-> TRUE, raw |-> octets] or [ok |-> FALSE, errs];      *)
(* Read yields [ok |-> TRUE, val |-> octets, tag |-> tag or NoTag] or       *)
(* [ok |-> FALSE, errs], where errs are the kinds of error that may be      *)
(* reported (several conditions may fail at once).                          *)
EXTENDS Integers, Sequences

CONSTANTS BlockLen,        \* block length of hidden passwords (16), = AuthLen
          MaxUserPw,       \* 128
          MaxTunnelPw,     \* 240
          MaxTunnelRaw,    \* 243: longest hidden tunnel password value
          SaltTop,         \* least first salt octet (128)
          TagMax,          \* greatest tag (31)
          Hash(_), Xor(_, _)

NoTag == -1

LengthError == "InvalidAttributeLengthError"
NoSecret    == "PasswordSecretMissingError"
BadAuthLen  == "InvalidRequestAuthenticatorLength"
PwTooLong   == "UserPasswordPlainTextMaximumLengthExceededError"
BadSalt     == "InvalidSaltMSBError"
NotText     == "DecodingError"
TagMissing  == "TagMissingError"
BadStrTag   == "InvalidTagForStringValueError"
BadIntTag   == "InvalidTagForIntegerValueError"

Ok(val, tag) == [ok |-> TRUE, val |-> val, tag |-> tag]
Raw(raw)     == [ok |-> TRUE, raw |-> raw]
Fail(errs)   == [ok |-> FALSE, errs |-> errs]

XorS(s, t) == [i \in 1..Len(s) |-> Xor(s[i], t[i])]
ZeroSeq(n) == [i \in 1..n |-> 0]

----------------------------------------------------------------------------
(* Well-formed UTF-8 (Unicode table 3-7).                                   *)
Cont(b) == b >= 128 /\ b <= 191
RECURSIVE Utf8From(_, _)
Utf8From(s, i) ==
  IF i > Len(s) THEN TRUE
  ELSE LET b == s[i]
           has(n) == i + n <= Len(s)
       IN CASE b <= 127 -> Utf8From(s, i + 1)
            [] b >= 194 /\ b <= 223 -> has(1) /\ Cont(s[i+1]) /\ Utf8From(s, i + 2)
            [] b >= 224 /\ b <= 239 ->
                 /\ has(2)
                 /\ s[i+1] >= (IF b = 224 THEN 160 ELSE 128)
                 /\ s[i+1] <= (IF b = 237 THEN 159 ELSE 191)
                 /\ Cont(s[i+2]) /\ Utf8From(s, i + 3)
            [] b >= 240 /\ b <= 244 ->
                 /\ has(3)
                 /\ s[i+1] >= (IF b = 240 THEN 144 ELSE 128)
                 /\ s[i+1] <= (IF b = 244 THEN 143 ELSE 191)
                 /\ Cont(s[i+2]) /\ Cont(s[i+3]) /\ Utf8From(s, i + 4)
            [] OTHER -> FALSE
IsUtf8(s) == Utf8From(s, 1)

----------------------------------------------------------------------------
(* Hiding: c(i) = p(i) xor Hash(secret \o c(i-1)).                          *)
Blocks(n) == (n + BlockLen - 1) \div BlockLen
PadTo(plain) == LET k == IF plain = <<>> THEN 1 ELSE Blocks(Len(plain))
                IN  plain \o ZeroSeq(k * BlockLen - Len(plain))
RECURSIVE HideFrom(_, _, _)
HideFrom(plain, prev, secret) ==
  IF plain = <<>> THEN <<>>
  ELSE LET c == XorS(SubSeq(plain, 1, BlockLen), Hash(secret \o prev))
       IN  c \o HideFrom(SubSeq(plain, BlockLen + 1, Len(plain)), c, secret)

RECURSIVE RevealFrom(_, _, _)
RevealFrom(hidden, prev, secret) ==
  IF hidden = <<>> THEN <<>>
  ELSE LET n == IF Len(hidden) < BlockLen THEN Len(hidden) ELSE BlockLen
           c == SubSeq(hidden, 1, n)
       IN  XorS(c, Hash(secret \o prev)) \o RevealFrom(SubSeq(hidden, n + 1, Len(hidden)), c, secret)

RECURSIVE Strip(_)
Strip(s) == IF s = <<>> \/ s[Len(s)] # 0 THEN s ELSE Strip(SubSeq(s, 1, Len(s) - 1))

KeyErrs(secret, auth) == (IF secret = <<>> THEN {NoSecret} ELSE {})
                         \cup (IF Len(auth) # BlockLen THEN {BadAuthLen} ELSE {})

WriteUserPw(plain, secret, auth) ==
  LET errs == KeyErrs(secret, auth) \cup (IF Len(plain) > MaxUserPw THEN {PwTooLong} ELSE {})
  IN  IF errs # {} THEN Fail(errs) ELSE Raw(HideFrom(PadTo(plain), auth, secret))

(* A hidden value whose length is in range but not a multiple of the block  *)
(* length is not constrained beyond "no panic" (Read... .open).             *)
ReadUserPw(raw, secret, auth) ==
  LET errs == KeyErrs(secret, auth)
              \cup (IF Len(raw) < BlockLen \/ Len(raw) > MaxUserPw THEN {LengthError} ELSE {})
  IN  IF errs # {} THEN Fail(errs) ELSE Ok(Strip(RevealFrom(raw, auth, secret)), NoTag)
UserPwOpen(raw) == Len(raw) % BlockLen # 0

TunnelWriteErrs(plain, secret, auth) ==
  KeyErrs(secret, auth) \cup (IF Len(plain) > MaxTunnelPw THEN {LengthError} ELSE {})
(* The salt is drawn by the writer; raw is a legal result iff:              *)
IsTunnelRaw(raw, plain, tag, secret, auth) ==
  /\ Len(raw) = 3 + Len(PadTo(plain))
  /\ raw[1] = (IF tag = NoTag THEN 0 ELSE tag)
  /\ raw[2] >= SaltTop
  /\ SubSeq(raw, 4, Len(raw)) = HideFrom(PadTo(plain), auth \o <<raw[2], raw[3]>>, secret)

ReadTunnelPw(raw, secret, auth) ==
  LET errs == KeyErrs(secret, auth)
              \cup (IF Len(raw) < 3 + BlockLen \/ Len(raw) > MaxTunnelRaw \/ (Len(raw) - 3) % BlockLen # 0
                    THEN {LengthError} ELSE {})
              \cup (IF Len(raw) >= 2 /\ raw[2] < SaltTop THEN {BadSalt} ELSE {})
  IN  IF errs # {} THEN Fail(errs)
      ELSE Ok(Strip(RevealFrom(SubSeq(raw, 4, Len(raw)), auth \o <<raw[2], raw[3]>>, secret)), raw[1])

----------------------------------------------------------------------------
(* The kinds of values.                                                     *)

FixedLen(kind) == CASE kind = "integer"  -> 4
                    [] kind = "short"    -> 2
                    [] kind = "ipaddr"   -> 4
                    [] kind = "ipv6addr" -> 16
                    [] kind = "date"     -> 4

(* Write, for all kinds but tunnel_password (see IsTunnelRaw) and concat.   *)
Write(kind, n, val, tag, secret, auth) ==
  CASE kind \in {"integer", "short", "ipaddr", "ipv6addr", "date", "string", "octets"} -> Raw(val)
    [] kind = "fixed"          -> IF Len(val) = n THEN Raw(val) ELSE Fail({LengthError})
    [] kind = "ipv4prefix"     -> IF Len(val) = 4 THEN Raw(<<0, 32>> \o val) ELSE Fail({LengthError})
    [] kind = "ipv6prefix"     -> IF Len(val) <= 16 THEN Raw(<<0, 8 * Len(val)>> \o val) ELSE Fail({LengthError})
    [] kind = "tagged_integer" -> Raw(<<IF tag = NoTag THEN 0 ELSE tag>> \o val)
    [] kind = "tagged_string"  -> Raw(IF tag = NoTag THEN val ELSE <<tag>> \o val)
    [] kind = "user_password"  -> WriteUserPw(val, secret, auth)

Read(kind, raw, secret, auth) ==
  CASE kind \in {"integer", "short", "ipaddr", "ipv6addr", "date"} ->
         IF Len(raw) = FixedLen(kind) THEN Ok(raw, NoTag) ELSE Fail({LengthError})
    [] kind \in {"octets", "fixed"} -> Ok(raw, NoTag)
    [] kind = "string" -> IF IsUtf8(raw) THEN Ok(raw, NoTag) ELSE Fail({NotText})
    [] kind = "ipv4prefix" -> IF Len(raw) = 6 THEN Ok(SubSeq(raw, 3, 6), NoTag) ELSE Fail({LengthError})
    [] kind = "ipv6prefix" -> IF Len(raw) >= 2 THEN Ok(SubSeq(raw, 3, Len(raw)), NoTag) ELSE Fail({LengthError})
    [] kind = "tagged_integer" ->
         IF raw = <<>> THEN Fail({TagMissing})
         ELSE LET errs == (IF raw[1] > TagMax THEN {BadIntTag} ELSE {})
                          \cup (IF Len(raw) # 5 THEN {LengthError} ELSE {})
              IN  IF errs # {} THEN Fail(errs) ELSE Ok(SubSeq(raw, 2, 5), raw[1])
    [] kind = "tagged_string" ->
         IF raw = <<>> THEN Fail({TagMissing})
         ELSE IF raw[1] = 0 THEN Fail({BadStrTag})
         ELSE LET tagged == raw[1] <= TagMax
                  text == IF tagged THEN SubSeq(raw, 2, Len(raw)) ELSE raw
              IN  IF IsUtf8(text) THEN Ok(text, IF tagged THEN raw[1] ELSE NoTag) ELSE Fail({NotText})
    [] kind = "user_password" -> ReadUserPw(raw, secret, auth)
    [] kind = "tunnel_password" -> ReadTunnelPw(raw, secret, auth)

(* Is there freedom in reading this value?                                  *)
ReadOpen(kind, raw) == kind = "user_password" /\ UserPwOpen(raw)

(* Vendor-specific messages. *)
VsaMessage(vendor, vtype, tag, val) ==
  vendor \o <<vtype, Len(val) + (IF tag = NoTag THEN 2 ELSE 3)>>
  \o (IF tag = NoTag THEN <<>> ELSE <<tag>>) \o val
=============================================================================
