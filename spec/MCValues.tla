------------------------------ MODULE MCValues ------------------------------
(* Password hiding and tagged values, scaled down (octets 0..3, blocks of   *)
(* two octets) and explored exhaustively for C07, C08 and C10, and the      *)
(* UTF-8 automaton of C10 against the arithmetic of code points.            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Mode, PwLen, HashSeed

Xor4(a, b) == LET lo == ((a % 2) + (b % 2)) % 2
                  hi == ((a \div 2) + (b \div 2)) % 2 IN 2 * hi + lo
RECURSIVE Mix(_, _)
Mix(s, acc) == IF s = <<>> THEN acc ELSE Mix(Tail(s), (acc * 5 + Head(s) * HashSeed + 3) % 97)
ToyHash(s) == LET h == Mix(s, HashSeed) IN <<h % 4, (h \div 7) % 4>>

V == INSTANCE Values WITH BlockLen <- 2, MaxUserPw <- 6, MaxTunnelPw <- 6, MaxTunnelRaw <- 9,
  SaltTop <- 2, TagMax <- 1, Hash <- ToyHash, Xor <- Xor4

VARIABLES x, key
vars == <<x, key>>
Secrets == {<<>>, <<0>>, <<1, 3>>}
Auths   == IF PwLen > 7 THEN {<<0, 0>>, <<2, 1>>, <<1>>, <<1, 2, 3>>} ELSE {<<2, 1>>, <<1, 2, 3>>}
Utf8Alphabet == {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 237, 238, 239, 240, 241, 244, 245, 255}
Octets == IF Mode = "utf8" THEN Utf8Alphabet ELSE 0..3

Init == /\ x = <<>>
        /\ key \in (IF Mode = "utf8" THEN {[s |-> <<>>, a |-> <<>>]} ELSE [s : Secrets, a : Auths])
Next == Len(x) < PwLen /\ \E b \in Octets : x' = Append(x, b) /\ UNCHANGED key

GoodKey == key.s # <<>> /\ Len(key.a) = 2
NoTrailingZero == x = <<>> \/ x[Len(x)] # 0

(* x as a plain password. *)
UserPassword ==
  LET w == V!WriteUserPw(x, key.s, key.a)
      r == V!ReadUserPw(w.raw, key.s, key.a)
  IN  /\ w.ok <=> GoodKey /\ Len(x) <= 6
      /\ w.ok => /\ Len(w.raw) > 0 /\ Len(w.raw) % 2 = 0 /\ Len(w.raw) >= Len(x) /\ Len(w.raw) <= (IF x = <<>> THEN 2 ELSE Len(x) + 1)
                 /\ r.ok
                 /\ NoTrailingZero => r.val = x
                 /\ V!Strip(x) = r.val
                 /\ \A i \in 1..(Len(w.raw) \div 2) :            \* the block equation itself
                      LET c(j) == IF j = 0 THEN key.a ELSE <<w.raw[2 * j - 1], w.raw[2 * j]>>
                          p == V!PadTo(x)
                      IN  c(i) = V!XorS(<<p[2 * i - 1], p[2 * i]>>, ToyHash(key.s \o c(i - 1)))
(* x as a received value. *)
UserPasswordRead ==
  LET r == V!ReadUserPw(x, key.s, key.a) IN r.ok <=> GoodKey /\ Len(x) >= 2 /\ Len(x) <= 6
TunnelPassword ==
  \A tag \in {-1, 0, 1, 3}, s1 \in 2..3, s2 \in 0..3 :
    LET plain == V!PadTo(x)
        raw == <<IF tag = -1 THEN 0 ELSE tag, s1, s2>> \o V!HideFrom(plain, key.a \o <<s1, s2>>, key.s)
        r == V!ReadTunnelPw(raw, key.s, key.a)
    IN  GoodKey /\ Len(x) <= 6 =>
          /\ V!IsTunnelRaw(raw, x, tag, key.s, key.a)
          /\ r.ok /\ r.tag = raw[1] /\ r.val = V!Strip(x)
          /\ NoTrailingZero => r.val = x
          /\ V!TunnelWriteErrs(x, key.s, key.a) = {}
TunnelPasswordRead ==
  LET r == V!ReadTunnelPw(x, key.s, key.a)
  IN  r.ok <=> GoodKey /\ Len(x) >= 5 /\ Len(x) <= 9 /\ (Len(x) - 3) % 2 = 0 /\ x[2] >= 2
(* Tagged values: every value is read back with its tag. *)
Tagged ==
  /\ \A tag \in 0..1 : Len(x) = 4 =>
       V!Read("tagged_integer", V!Write("tagged_integer", 0, x, tag, <<>>, <<>>).raw, <<>>, <<>>) = V!Ok(x, tag)
  /\ Len(x) = 4 => V!Read("tagged_integer", V!Write("tagged_integer", 0, x, -1, <<>>, <<>>).raw, <<>>, <<>>) = V!Ok(x, 0)
  /\ V!Read("tagged_string", V!Write("tagged_string", 0, x, 1, <<>>, <<>>).raw, <<>>, <<>>) = V!Ok(x, 1)
  /\ x # <<>> /\ x[1] > 1 => V!Read("tagged_string", V!Write("tagged_string", 0, x, -1, <<>>, <<>>).raw, <<>>, <<>>) = V!Ok(x, -1)
  /\ x = <<>> \/ x[1] = 0 => ~V!Read("tagged_string", x, <<>>, <<>>).ok
  /\ (~V!Read("tagged_integer", x, <<>>, <<>>).ok <=> ~(Len(x) = 5 /\ x[1] <= 1))

(* A sequence is UTF-8 iff it is a concatenation of shortest encodings of   *)
(* code points that are no surrogates.                                      *)
IsChar(s) ==
  LET c(i) == s[i] - 128
      tail(k) == Len(s) = k /\ \A i \in 2..k : s[i] \in 128..191
  IN  \/ Len(s) = 1 /\ s[1] <= 127
      \/ s[1] \in 192..223 /\ tail(2) /\ LET p == (s[1] - 192) * 64 + c(2) IN p >= 128
      \/ s[1] \in 224..239 /\ tail(3) /\ LET p == (s[1] - 224) * 4096 + c(2) * 64 + c(3) IN p >= 2048 /\ ~(p >= 55296 /\ p <= 57343)
      \/ s[1] \in 240..247 /\ tail(4) /\ LET p == (s[1] - 240) * 262144 + c(2) * 4096 + c(3) * 64 + c(4) IN p >= 65536 /\ p <= 1114111
RECURSIVE Chars(_)
Chars(s) == s = <<>> \/ \E k \in 1..(IF Len(s) < 4 THEN Len(s) ELSE 4) : IsChar(SubSeq(s, 1, k)) /\ Chars(SubSeq(s, k + 1, Len(s)))
Utf8 == V!IsUtf8(x) <=> Chars(x)
=============================================================================
