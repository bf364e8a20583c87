----------------------------- MODULE TraceFresh -----------------------------
(* The recorded constructions: log of [k, auth, id, given, ...].            *)
EXTENDS Freshness, RadiusPrims, Integers, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES phase
Init == phase = 0
Next == phase < 4 /\ phase' = phase + 1

News == SelectSeq(Log, LAMBDA e : e.k = "new")
Auths == [i \in 1..Len(News) |-> HexBytes(News[i].auth)]
AuthTexts == [i \in 1..Len(News) |-> News[i].auth]
Drawn == SelectSeq(News, LAMBDA e : e.given = -1)
Salts == SelectSeq(Log, LAMBDA e : e.k = "salt")
SaltOctets == [i \in 1..Len(Salts) |-> HexBytes(Salts[i].salt)]

AuthShape == phase = 1 => \A i \in 1..Len(News) : Len(Auths[i]) = 16
AuthFresh == phase = 1 => Distinct(AuthTexts)
(* Further authenticators, recorded in bulk and put in order (each run      *)
(* begins with the last one of the run before): none equals its neighbour,  *)
(* hence none occurs twice.                                                 *)
Bulk == SelectSeq(Log, LAMBDA e : e.k = "bulk")
BulkFresh == phase = 1 => \A i \in 1..Len(Bulk) : \A j \in 1..(Len(Bulk[i].auths) - 1) : Bulk[i].auths[j] # Bulk[i].auths[j + 1]
AuthVaries == phase = 2 => AllVary(Auths, 16, 0..255)
IdsAsked == phase = 3 => \A i \in 1..Len(News) : News[i].given >= 0 => News[i].id = News[i].given
IdsVary == phase = 3 => {Drawn[i].id : i \in 1..Len(Drawn)} = 0..255
(* set_identifier changes the identifier and nothing else. *)
SetIdOnly == phase = 3 =>
  \A i \in 1..Len(News) : News[i].auth2 = News[i].auth /\ News[i].id2 = News[i].want2 /\ News[i].same2
SaltsDrawn == phase = 4 =>
  /\ \A i \in 1..Len(Salts) : SaltOctets[i][1] >= 128
  /\ ValuesAt(SaltOctets, 1) = 128..255
  /\ ValuesAt(SaltOctets, 2) = 0..255
(* Also among the salts made in one way, for one request, and among the     *)
(* packets of one type or made in one way, the values vary.                 *)
Groups == {Salts[i].grp : i \in 1..Len(Salts)}
SaltGroup(g) == LET s == SelectSeq(Salts, LAMBDA e : e.grp = g) IN [i \in 1..Len(s) |-> HexBytes(s[i].salt)]
SaltsOfGroupVary == phase = 4 =>
  \A g \in Groups : LET h == SaltGroup(g) IN Len(h) >= 500 => Varies(h, 2, 64)
Codes == {News[i].code : i \in 1..Len(News)}
AuthsOf(c, given) == LET s == SelectSeq(News, LAMBDA e : e.code = c /\ (e.given >= 0) = given) IN [i \in 1..Len(s) |-> HexBytes(s[i].auth)]
AuthsOfGroupVary == phase = 2 =>
  \A c \in Codes, given \in BOOLEAN : LET h == AuthsOf(c, given) IN Len(h) >= 500 => Varies(h, 16, 100)
IdsSpread(s) == Len(s) >= 500 => Cardinality({s[i].id : i \in 1..Len(s)}) >= 100
IdsOfGroupVary == phase = 3 => \A c \in Codes : IdsSpread(SelectSeq(Drawn, LAMBDA e : e.code = c))
(* ... and among those with one secret, whatever it is. *)
Secrets == {News[i].sec : i \in 1..Len(News)}
IdsOfSecretVary == phase = 3 => \A x \in Secrets : IdsSpread(SelectSeq(Drawn, LAMBDA e : e.sec = x))
AuthsOfSecretVary == phase = 2 =>
  \A x \in Secrets : LET s == SelectSeq(News, LAMBDA e : e.sec = x)
                         h == [i \in 1..Len(s) |-> HexBytes(s[i].auth)] IN Len(h) >= 500 => Varies(h, 16, 100)
Enough == Len(Drawn) >= 6000 /\ Len(Salts) >= 6000 /\ \A g \in Groups : Len(SaltGroup(g)) >= 500
          /\ 0..255 \subseteq {News[i].given : i \in 1..Len(News)} /\ {News[i].want2 : i \in 1..Len(News)} = 0..255
=============================================================================
