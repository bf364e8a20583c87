----------------------------- MODULE DictFormat -----------------------------
(* The dictionary language the code generator reads, over octets: what the  *)
(* lines of a dictionary declare, or that they are not a dictionary.        *)
(* A line that is empty or starts with # declares nothing; every other line *)
(* has at least four fields separated by white space:                       *)
(*   ATTRIBUTE name number type [options]    VALUE attribute name number    *)
(* Options are separated by commas; what follows the last field, and what   *)
(* follows # in a value's number, is a comment.                             *)
EXTENDS RadiusPrims, FiniteSets

Space == {9, 32}
Hash1 == 35
Comma == 44
K_ATTRIBUTE == HexBytes("415454524942555445")
K_VALUE     == HexBytes("56414c5545")
T_string == HexBytes("737472696e67")
T_octets == HexBytes("6f6374657473")
T_integer == HexBytes("696e7465676572")
T_ifid == HexBytes("69666964")
O_enc1 == HexBytes("656e63727970743d31")
O_enc2 == HexBytes("656e63727970743d32")
O_tag == HexBytes("6861735f746167")
O_concat == HexBytes("636f6e636174")
(* the value types without options: octets of the name -> kind *)
Plain == { <<HexBytes("697061646472"), "ipaddr">>, <<HexBytes("6970763661646472"), "ipv6addr">>, <<HexBytes("69707634707265666978"), "ipv4prefix">>,
           <<HexBytes("69707636707265666978"), "ipv6prefix">>, <<HexBytes("64617465"), "date">>, <<HexBytes("73686f7274"), "short">>, <<HexBytes("767361"), "vsa">> }

Skipped(line) == line = <<>> \/ line[1] = Hash1

RECURSIVE Split(_, _, _, _)
(* The pieces of s between the octets in sep, empty ones left out if runs. *)
Split(s, sep, runs, cur) ==
  IF s = <<>> THEN (IF runs /\ cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE IF Head(s) \in sep THEN (IF runs /\ cur = <<>> THEN <<>> ELSE <<cur>>) \o Split(Tail(s), sep, runs, <<>>)
  ELSE Split(Tail(s), sep, runs, Append(cur, Head(s)))
Fields(line) == Split(line, Space, TRUE, <<>>)

Digits(s) == s # <<>> /\ \A i \in 1..Len(s) : s[i] \in 48..57
(* A decimal number as four octets, with what is carried out of them. *)
RECURSIVE Dec(_, _)
Dec(s, n) ==
  IF s = <<>> THEN n
  ELSE LET d == Head(s) - 48
           a == n[4] * 10 + d
           b == n[3] * 10 + a \div 256
           c == n[2] * 10 + b \div 256
           e == n[1] * 10 + c \div 256
           over == n[5] + e \div 256
       IN  Dec(Tail(s), <<e % 256, c % 256, b % 256, a % 256, IF over > 0 THEN 1 ELSE 0>>)
Number(s) == Dec(s, <<0, 0, 0, 0, 0>>)
FitsOctet(s) == Digits(s) /\ LET n == Number(s) IN n[1] = 0 /\ n[2] = 0 /\ n[3] = 0 /\ n[5] = 0
Fits32(s) == Digits(s) /\ Number(s)[5] = 0
RECURSIVE UpToHash(_)
UpToHash(s) == IF s = <<>> \/ Head(s) = Hash1 THEN <<>> ELSE <<Head(s)>> \o UpToHash(Tail(s))

(* octets[n] *)
IsFixed(t) == /\ Len(t) > 8 /\ SubSeq(t, 1, 7) = T_octets \o <<91>> /\ t[Len(t)] = 93
              /\ FitsOctet(SubSeq(t, 8, Len(t) - 1))
FixedLen(t) == Number(SubSeq(t, 8, Len(t) - 1))[4]

Bad == [d |-> "bad"]
KindOf(t, os) ==
  CASE t = T_string -> IF O_enc1 \in os THEN (IF O_tag \in os THEN "bad" ELSE "user_password")
                       ELSE IF O_enc2 \in os THEN (IF O_tag \in os THEN "tunnel_password" ELSE "bad")
                       ELSE IF O_tag \in os THEN "tagged_string" ELSE "string"
    [] t = T_integer -> IF O_tag \in os THEN "tagged_integer" ELSE "integer"
    [] t = T_octets -> IF O_tag \in os THEN "bad" ELSE IF O_concat \in os THEN "concat" ELSE "octets"
    [] IsFixed(t) \/ t = T_ifid -> IF O_tag \in os THEN "bad" ELSE "fixed"
    [] \E p \in Plain : p[1] = t -> LET k == (CHOOSE p \in Plain : p[1] = t)[2] IN IF O_tag \in os /\ k # "vsa" THEN "bad" ELSE k
    [] OTHER -> "bad"
Options(f) == IF Len(f) < 5 \/ f[5][1] = Hash1 THEN {} ELSE LET o == Split(f[5], {Comma}, FALSE, <<>>) IN {o[i] : i \in 1..Len(o)}

Decl(line) ==
  LET f == Fields(line) IN
  IF Skipped(line) THEN [d |-> "none"]
  ELSE IF Len(f) < 4 THEN Bad
  ELSE IF f[1] = K_ATTRIBUTE THEN
    LET k == KindOf(f[4], Options(f)) IN
    IF k = "bad" \/ ~FitsOctet(f[3]) THEN Bad
    ELSE [d |-> "attr", name |-> f[2], num |-> Number(f[3])[4], kind |-> k,
          len |-> IF f[4] = T_ifid THEN 8 ELSE IF k = "fixed" THEN FixedLen(f[4]) ELSE 0]
  ELSE IF f[1] = K_VALUE THEN
    LET n == UpToHash(f[4]) IN
    IF ~Fits32(n) THEN Bad ELSE [d |-> "value", attr |-> f[2], name |-> f[3], n |-> SubSeq(Number(n), 1, 4)]
  ELSE Bad

Valid(lines) == \A i \in 1..Len(lines) : Decl(lines[i]).d # "bad"
RECURSIVE Declared(_, _)
Declared(lines, d) == IF lines = <<>> THEN <<>>
                      ELSE LET x == Decl(Head(lines)) IN (IF x.d = d THEN <<x>> ELSE <<>>) \o Declared(Tail(lines), d)
=============================================================================
