------------------------------ MODULE TraceLog ------------------------------
(* Log records of the server and the client (C22): no record shows a        *)
(* secret, or five octets from its beginning or end, in any of the usual    *)
(* renderings of octets.  Events: secret v (hex), log text (hex).           *)
EXTENDS RadiusPrims, FiniteSets, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES si, l, needles
vars == <<si, l, needles>>

Digit(d) == 48 + d
Dec(b) == IF b >= 100 THEN <<Digit(b \div 100), Digit((b \div 10) % 10), Digit(b % 10)>>
          ELSE IF b >= 10 THEN <<Digit(b \div 10), Digit(b % 10)>> ELSE <<Digit(b)>>
HexChar(d, a) == IF d < 10 THEN 48 + d ELSE a + d - 10
Hex(b, a) == <<HexChar(b \div 16, a), HexChar(b % 16, a)>>
RECURSIVE Each(_, _, _)
Each(s, F(_), sep) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN F(s[1]) ELSE F(s[1]) \o sep \o Each(Tail(s), F, sep)
Hex0x(b) == <<48, 120>> \o Hex(b, 97)
B64(n) == IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 71 + n ELSE IF n < 62 THEN n - 4 ELSE IF n = 62 THEN 43 ELSE 47
B64of(a, b, c) == <<B64(a \div 4), B64((a % 4) * 16 + b \div 16), B64((b % 16) * 4 + c \div 64), B64(c % 64)>>
(* the beginning of the secret in base 64 *)
Base64(s) == IF Len(s) < 6 THEN {} ELSE {B64of(s[1], s[2], s[3]) \o B64of(s[4], s[5], s[6])}
Renderings(s) == {Each(s, Hex0x, sep) : sep \in {<<44, 32>>, <<32>>, <<44, 10, 32, 32, 32, 32>>}} \cup {s, Each(s, Dec, <<44, 32>>), Each(s, Dec, <<44>>), Each(s, Dec, <<44, 10, 32, 32, 32, 32>>), Each(s, Dec, <<32>>)}
                 \cup {Each(s, LAMBDA b : Hex(b, a), sep) : a \in {65, 97}, sep \in {<<>>, <<58>>, <<32>>, <<44, 32>>}}
Min(a, b) == IF a < b THEN a ELSE b
Ends(s) == {SubSeq(s, 1, Min(5, Len(s))), SubSeq(s, Len(s) - Min(5, Len(s)) + 1, Len(s))}
NeedlesOf(s) == Base64(s) \cup UNION {Renderings(x) : x \in Ends(s)}

Occurs(needle, text) ==
  \E i \in 1..(Len(text) - Len(needle) + 1) :
    /\ text[i] = needle[1]
    /\ \A j \in 2..Len(needle) : text[i + j - 1] = needle[j]

Apply(ev) ==
  CASE ev.e = "secret" -> [ok |-> TRUE, needles |-> needles \cup NeedlesOf(HexBytes(ev.v))]
    [] ev.e = "log" -> LET t == HexBytes(ev.text) IN [ok |-> \A x \in needles : ~Occurs(x, t), needles |-> needles]

Init == si \in 1..Len(Sessions) /\ l = 1 /\ needles = {}
Next == /\ l <= Len(Sessions[si].ev)
        /\ LET r == Apply(Sessions[si].ev[l]) IN
           /\ IF r.ok THEN TRUE ELSE PrintT(<<"REJECTED", si, l, {"secretLogged"}>>)
           /\ r.ok /\ needles' = r.needles
        /\ l' = l + 1 /\ UNCHANGED si
Cursor == <<si, l>>                     \* the state is a function of the position in the trace
Spec == Init /\ [][Next]_vars
=============================================================================
