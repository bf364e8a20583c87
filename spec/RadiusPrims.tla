---------------------------- MODULE RadiusPrims ----------------------------
(* The primitive operators of the specification: MD5 (RFC 1321), exclusive *)
(* or on octets, and reading octets from hexadecimal text (trace files).   *)
(* The TLA+ definitions below are complete; TLC evaluates them natively    *)
(* when java/RadiusPrims.class is on its class path.  PrimsTest.tla checks *)
(* both against the RFC 1321 test suite and each other's results.          *)
EXTENDS Naturals, Sequences, Bitwise

XorByte(a, b) == a ^^ b

XorSeq(s, t) == [i \in 1..Len(s) |-> XorByte(s[i], t[i])]

HexDigit == [c \in {"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f"} |->
  CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3
    [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7
    [] c = "8" -> 8 [] c = "9" -> 9 [] c = "a" -> 10 [] c = "b" -> 11
    [] c = "c" -> 12 [] c = "d" -> 13 [] c = "e" -> 14 [] c = "f" -> 15]

HexBytes(s) == [i \in 1..(Len(s) \div 2) |->
                  16 * HexDigit[SubSeq(s, 2*i - 1, 2*i - 1)] + HexDigit[SubSeq(s, 2*i, 2*i)]]

(* 32-bit words are pairs <<high half, low half>>, because TLC's integers  *)
(* are 32-bit signed.                                                      *)
H == 65536
WAdd(a, b) == LET lo == a[2] + b[2] IN <<(a[1] + b[1] + lo \div H) % H, lo % H>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WOr(a, b)  == <<a[1] | b[1], a[2] | b[2]>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WNot(a)    == <<H - 1 - a[1], H - 1 - a[2]>>
Pow2(n)    == 2^n
WRotl(a, s) == LET x == IF s >= 16 THEN <<a[2], a[1]>> ELSE a
                   r == IF s >= 16 THEN s - 16 ELSE s
               IN  IF r = 0 THEN x
                   ELSE <<((x[1] * Pow2(r)) % H) + (x[2] \div Pow2(16 - r)),
                          ((x[2] * Pow2(r)) % H) + (x[1] \div Pow2(16 - r))>>

MD5K == <<
    <<55146,42104>>, <<59591,46934>>, <<9248,28891>>, <<49597,52974>>, <<62844,4015>>, <<18311,50730>>,
    <<43056,17939>>, <<64838,38145>>, <<27008,39128>>, <<35652,63407>>, <<65535,23473>>, <<35164,55230>>,
    <<27536,4386>>, <<64920,29075>>, <<42617,17294>>, <<18868,2081>>, <<63006,9570>>, <<49216,45888>>,
    <<9822,23121>>, <<59830,51114>>, <<54831,4189>>, <<580,5203>>, <<55457,59009>>, <<59347,64456>>,
    <<8673,52710>>, <<49975,2006>>, <<62677,3463>>, <<17754,5357>>, <<43491,59653>>, <<64751,41976>>,
    <<26479,729>>, <<36138,19594>>, <<65530,14658>>, <<34673,63105>>, <<28061,24866>>, <<64997,14348>>,
    <<42174,59972>>, <<19422,53161>>, <<63163,19296>>, <<48831,48240>>, <<10395,32454>>, <<60065,10234>>,
    <<54511,12421>>, <<1160,7429>>, <<55764,53305>>, <<59099,39397>>, <<8098,31992>>, <<50348,22117>>,
    <<62505,8772>>, <<17194,65431>>, <<43924,9127>>, <<64659,41017>>, <<25947,22979>>, <<36620,52370>>,
    <<65519,62589>>, <<34180,24017>>, <<28584,32335>>, <<65068,59104>>, <<41729,17172>>, <<19976,4513>>,
    <<63315,32386>>, <<48442,62005>>, <<10967,53947>>, <<60294,54161>> >>
MD5S == << 7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21 >>

MD5Pad(bs) == LET n == Len(bs)
                  z == (119 - (n % 64)) % 64
                  bits(i) == CASE i = 1 -> (n * 8) % 256
                               [] i = 2 -> (n \div 32) % 256
                               [] i = 3 -> (n \div 8192) % 256
                               [] i = 4 -> (n \div 2097152) % 256
                               [] OTHER -> 0
              IN  bs \o <<128>> \o [i \in 1..z |-> 0] \o [i \in 1..8 |-> bits(i)]

RECURSIVE MD5Round(_, _, _)
MD5Round(m, st, i) ==       \* st = <<a, b, c, d>>; i = 0..64
  IF i = 64 THEN st
  ELSE LET b == st[2]
           c == st[3]
           d == st[4]
           f == CASE i < 16 -> WOr(WAnd(b, c), WAnd(WNot(b), d))
                  [] i >= 16 /\ i < 32 -> WOr(WAnd(d, b), WAnd(WNot(d), c))
                  [] i >= 32 /\ i < 48 -> WXor(b, WXor(c, d))
                  [] OTHER -> WXor(c, WOr(b, WNot(d)))
           g == CASE i < 16 -> i
                  [] i >= 16 /\ i < 32 -> (5*i + 1) % 16
                  [] i >= 32 /\ i < 48 -> (3*i + 5) % 16
                  [] OTHER -> (7*i) % 16
           x == WAdd(WAdd(f, st[1]), WAdd(MD5K[i+1], m[g+1]))
       IN  MD5Round(m, <<d, WAdd(b, WRotl(x, MD5S[i+1])), b, c>>, i + 1)

RECURSIVE MD5Blocks(_, _, _)
MD5Blocks(p, st, k) ==
  IF k * 64 = Len(p) THEN st
  ELSE LET w(j) == LET o == k*64 + 4*j IN << p[o+4]*256 + p[o+3], p[o+2]*256 + p[o+1] >>
           r == MD5Round([j \in 1..16 |-> w(j-1)], st, 0)
       IN  MD5Blocks(p, [j \in 1..4 |-> WAdd(st[j], r[j])], k + 1)

WBytes(w) == << w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256 >>

MD5(bs) == LET r == MD5Blocks(MD5Pad(bs), << <<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>> >>, 0)
           IN  WBytes(r[1]) \o WBytes(r[2]) \o WBytes(r[3]) \o WBytes(r[4])
=============================================================================
