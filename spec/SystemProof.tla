---------------------------- MODULE SystemProof ----------------------------
(* Clients, network and server together, with any number of clients, calls, *)
(* datagrams and handlers and any corruption: C24 as stated in System is    *)
(* proved invariant (TLAPS).                                                *)
EXTENDS System, Integers, TLAPS

Body == {<<"x">>} \cup {<<"q", b>> : b \in Bodies}
Junk == {<<"junk">>} \cup {<<"nonce", n>> : n \in Nat}
Auth == Junk \cup {SealOf(1, b) : b \in Body} \cup {SealOf(2, b) : b \in Body}
Dgram == [c : Clients, n : Nat, sealed : BOOLEAN, auth : Auth, body : Body, id : {1, 2}]
Asked(c) == [c |-> c, n |-> cur[c].n, sealed |-> cur[c].sealed, auth |-> cur[c].auth, body |-> cur[c].body, id |-> Id]

TypeOK == /\ calls \in Nat
          /\ hs \in Seq([m : Dgram, st : {"run", "done"}])
          /\ reqs \subseteq Dgram
          /\ DOMAIN cur = Clients
          /\ \A c \in Clients : cur[c] = [st |-> cur[c].st, n |-> cur[c].n, sealed |-> cur[c].sealed, auth |-> cur[c].auth, body |-> cur[c].body, res |-> cur[c].res]
Asks == /\ \A m \in reqs : /\ m.id = Id /\ m.n <= calls
                           /\ m.sealed => m.auth = SealOf(Id, m.body)
                           /\ ~m.sealed => m.auth = <<"nonce", m.n>>
        /\ \A m, k \in reqs : m.n = k.n => m = k
Waits == \A c \in Clients : cur[c].st # "idle" => Asked(c) \in reqs
Idles == \A c \in Clients : cur[c].st = "idle" => cur[c].res = <<"none">>
Handled == \A i \in 1..Len(hs) : /\ hs[i].m.sealed => hs[i].m.auth = SealOf(hs[i].m.id, hs[i].m.body)
                                 /\ ~hs[i].m.sealed => hs[i].m.auth \in Junk
                                 /\ Corrupt = {} => hs[i].m \in reqs
Replies == \A r \in resps : /\ r = [h |-> r.h, id |-> r.id, body |-> r.body, auth |-> r.auth]
                            /\ r.h \in 1..Len(hs) /\ hs[r.h].st = "done" /\ r.id = hs[r.h].m.id
                            /\ r.body = <<"answer", r.h>> /\ r.auth = Seal2(r.id, hs[r.h].m.auth, r.body)
Inv == TypeOK /\ Asks /\ Waits /\ Idles /\ Handled /\ Replies /\ Exclusive /\ Answered

ASSUME IsSpec == Variant = "spec"
ASSUME Corruption == Corrupt \subseteq {"body", "id", "auth"}

LEMMA InJunk == Junk \subseteq Auth /\ <<"junk">> \in Junk /\ \A n \in Nat : <<"nonce", n>> \in Junk
<1>1. \A n \in Nat : <<"nonce", n>> \in {<<"nonce", k>> : k \in Nat}
  OBVIOUS
<1> QED BY <1>1 DEF Junk, Auth
LEMMA InAuth == \A i \in {1, 2}, b \in Body : SealOf(i, b) \in Auth
<1>1. \A b \in Body : SealOf(1, b) \in {SealOf(1, k) : k \in Body} /\ SealOf(2, b) \in {SealOf(2, k) : k \in Body}
  OBVIOUS
<1> QED BY <1>1 DEF Auth
LEMMA Init0 == Init => Inv
  BY DEF Init, Idle, Inv, TypeOK, Asks, Waits, Idles, Handled, Replies, Exclusive, Answered

LEMMA CallInv == ASSUME Inv, NEW c \in Clients, NEW s \in BOOLEAN, NEW b \in Bodies, Call(c, s, b) PROVE Inv'
<1> DEFINE n == calls + 1
           auth == IF s THEN SealOf(Id, <<"q", b>>) ELSE <<"nonce", n>>
           x == [st |-> "wait", n |-> n, sealed |-> s, auth |-> auth, body |-> <<"q", b>>, res |-> <<"none">>]
           m == [c |-> c, n |-> n, sealed |-> s, auth |-> auth, body |-> <<"q", b>>, id |-> Id]
<1>1. calls' = n /\ cur' = [cur EXCEPT ![c] = x] /\ reqs' = reqs \cup {m} /\ UNCHANGED <<resps, hs>>
  BY DEF Call
<1>2. n \in Nat /\ n > calls /\ auth \in Auth /\ m \in Dgram
  <2>1. n \in Nat /\ n > calls
    BY DEF Inv, TypeOK
  <2>2. <<"q", b>> \in Body /\ Id \in {1, 2}
    BY DEF Body, Id
  <2>3. SealOf(Id, <<"q", b>>) \in Auth
    BY <2>2, InAuth
  <2>4. <<"nonce", n>> \in Auth
    BY <2>1, InJunk
  <2> QED BY <2>1, <2>2, <2>3, <2>4 DEF Dgram
<1>3. cur'[c] = x /\ \A k \in Clients : k # c => cur'[k] = cur[k]
  BY <1>1 DEF Inv, TypeOK
<1>4. TypeOK'
  BY <1>1, <1>2, <1>3 DEF Inv, TypeOK
<1>5. Asks'
  <2>1. \A k \in reqs : k.n # n /\ k.n <= n
    BY <1>2 DEF Inv, Asks, TypeOK, Dgram
  <2>2. m.n = n /\ m.id = Id /\ (m.sealed => m.auth = SealOf(Id, m.body)) /\ (~m.sealed => m.auth = <<"nonce", m.n>>)
    OBVIOUS
  <2> HIDE DEF m, auth
  <2> QED BY <1>1, <1>2, <2>1, <2>2 DEF Inv, Asks
<1>6. Waits'
  <2>1. Asked(c)' = m
    BY <1>3 DEF Asked
  <2>2. \A k \in Clients : k # c => Asked(k)' = Asked(k)
    BY <1>3 DEF Asked
  <2> QED BY <1>1, <1>3, <2>1, <2>2 DEF Inv, Waits
<1>7. Idles' /\ Handled' /\ Replies' /\ Exclusive'
  BY <1>1, <1>3 DEF Inv, Idles, Handled, Replies, Exclusive
<1>8. Answered'
  BY <1>1, <1>3 DEF Inv, Answered
<1> QED BY <1>4, <1>5, <1>6, <1>7, <1>8 DEF Inv

LEMMA ToServerInv == ASSUME Inv, NEW m \in reqs, NEW how \in Hows, ToServer(m, how) PROVE Inv'
<1> USE IsSpec, Corruption
<1> DEFINE d == IF how = "no" THEN m ELSE Hurt(m, how)
           h == [m |-> d, st |-> "run"]
<1>1. UNCHANGED <<cur, calls, reqs, resps>>
  BY DEF ToServer
<1>2. CASE UNCHANGED hs
  BY <1>1, <1>2 DEF Inv, TypeOK, Asks, Waits, Idles, Handled, Replies, Exclusive, Answered, Asked
<1>3. CASE hs' # hs
  <2>1. hs' = Append(hs, h) /\ Acceptable(d) /\ ~Busy(d)
    BY <1>3 DEF ToServer
  <2>2. m \in Dgram /\ m.id = Id /\ (m.sealed => m.auth = SealOf(Id, m.body)) /\ (~m.sealed => m.auth = <<"nonce", m.n>>) /\ m.n \in Nat
    BY DEF Inv, TypeOK, Asks, Dgram
  <2>3. how = "no" \/ how \in {"body", "id", "auth"}
    BY DEF Hows
  <2>4. d \in Dgram /\ (~d.sealed => d.auth \in Junk) /\ (Corrupt = {} => d = m)
    <3>1. <<"x">> \in Body /\ <<"junk">> \in Junk /\ Junk \subseteq Auth /\ (~m.sealed => m.auth \in Junk)
      BY <2>2, InJunk DEF Body
    <3>2. CASE how = "no"
      BY <2>2, <3>1, <3>2
    <3>3. CASE how = "body"
      BY <2>2, <3>1, <3>3 DEF Hurt, Dgram, Hows
    <3>4. CASE how = "id"
      BY <2>2, <3>1, <3>4 DEF Hurt, Dgram, Hows
    <3>5. CASE how = "auth"
      BY <2>2, <3>1, <3>5 DEF Hurt, Dgram, Hows
    <3> QED BY <2>3, <3>2, <3>3, <3>4, <3>5
  <2>5. d.sealed => d.auth = SealOf(d.id, d.body)
    BY <2>1 DEF Acceptable
  <2> HIDE DEF d
  <2>6. /\ Len(hs) \in Nat /\ Len(hs') = Len(hs) + 1 /\ hs'[Len(hs) + 1] = h
        /\ \A i \in 1..Len(hs) : hs'[i] = hs[i]
        /\ hs' \in Seq([m : Dgram, st : {"run", "done"}])
    BY <2>1, <2>4 DEF Inv, TypeOK
  <2>7. TypeOK' /\ Asks' /\ Waits' /\ Idles'
    BY <1>1, <2>6 DEF Inv, TypeOK, Asks, Waits, Idles, Asked
  <2>8. Handled'
    BY <1>1, <2>4, <2>5, <2>6 DEF Inv, Handled
  <2>9. Replies'
    BY <1>1, <2>6 DEF Inv, Replies
  <2>10. Exclusive'
    BY <2>1, <2>6 DEF Inv, Exclusive, Busy
  <2>11. Answered'
    BY <1>1, <2>6 DEF Inv, Answered
  <2> QED BY <2>7, <2>8, <2>9, <2>10, <2>11 DEF Inv
<1> QED BY <1>2, <1>3

LEMMA EndInv == ASSUME Inv, NEW i \in 1..Len(hs), EndHandler(i) PROVE Inv'
<1> DEFINE r == [h |-> i, id |-> hs[i].m.id, body |-> <<"answer", i>>, auth |-> Seal2(hs[i].m.id, hs[i].m.auth, <<"answer", i>>)]
<1>1. hs' = [hs EXCEPT ![i].st = "done"] /\ resps' = resps \cup {r} /\ UNCHANGED <<cur, calls, reqs>>
  BY DEF EndHandler
<1>2. /\ Len(hs') = Len(hs) /\ hs' \in Seq([m : Dgram, st : {"run", "done"}]) /\ hs'[i].st = "done" 
      /\ \A j \in 1..Len(hs) : hs'[j].m = hs[j].m /\ (j # i => hs'[j] = hs[j])
  BY <1>1 DEF Inv, TypeOK
<1>3. TypeOK' /\ Asks' /\ Waits' /\ Idles'
  BY <1>1, <1>2 DEF Inv, TypeOK, Asks, Waits, Idles, Asked
<1>4. Handled' /\ Exclusive'
  BY <1>1, <1>2 DEF Inv, Handled, Exclusive
<1>5. Replies'
  <2>1. r.h = i /\ r.id = hs'[i].m.id /\ r.body = <<"answer", i>> /\ r.auth = Seal2(r.id, hs'[i].m.auth, r.body) /\ r = [h |-> r.h, id |-> r.id, body |-> r.body, auth |-> r.auth]
    BY <1>2
  <2> HIDE DEF r
  <2> QED BY <1>1, <1>2, <2>1 DEF Inv, Replies
<1>6. Answered'
  BY <1>1, <1>2 DEF Inv, Answered
<1> QED BY <1>3, <1>4, <1>5, <1>6 DEF Inv

LEMMA ToClientInv == ASSUME Inv, NEW c \in Clients, NEW r \in resps, NEW how \in Hows, ToClient(c, r, how) PROVE Inv'
<1> USE IsSpec, Corruption
<1> DEFINE d == IF how = "no" THEN r ELSE HurtR(r, how)
           v == IF Verified(cur[c], d) THEN <<"ok", d.body, r.h>> ELSE <<"error">>
<1>1. cur[c].st = "wait" /\ cur' = [cur EXCEPT ![c].st = "done", ![c].res = v] /\ UNCHANGED <<calls, reqs, resps, hs>>
  BY DEF ToClient
<1>2. /\ cur'[c].st = "done" /\ cur'[c].res = v /\ cur'[c].n = cur[c].n /\ cur'[c].sealed = cur[c].sealed /\ cur'[c].auth = cur[c].auth /\ cur'[c].body = cur[c].body
      /\ \A k \in Clients : k # c => cur'[k] = cur[k]
      /\ DOMAIN cur' = Clients
      /\ cur'[c] = [st |-> cur'[c].st, n |-> cur'[c].n, sealed |-> cur'[c].sealed, auth |-> cur'[c].auth, body |-> cur'[c].body, res |-> cur'[c].res]
  BY <1>1 DEF Inv, TypeOK
<1>3. TypeOK' /\ Asks' /\ Idles'
  BY <1>1, <1>2 DEF Inv, TypeOK, Asks, Idles
<1>4. Waits'
  BY <1>1, <1>2 DEF Inv, Waits, Asked
<1>5. Handled' /\ Replies' /\ Exclusive'
  BY <1>1 DEF Inv, Handled, Replies, Exclusive
<1>6. Answered'
  <2>1. \A k \in Clients : k # c => cur'[k] = cur[k]
    BY <1>2
  <2>2. CASE ~Verified(cur[c], d)
    BY <1>1, <1>2, <2>1, <2>2 DEF Inv, Answered
  <2>3. CASE Verified(cur[c], d)
    <3> DEFINE i == r.h
    <3>1. /\ i \in 1..Len(hs) /\ hs[i].st = "done" /\ r.id = hs[i].m.id /\ r.id \in {1, 2}
          /\ r.body = <<"answer", i>> /\ r.auth = Seal2(r.id, hs[i].m.auth, r.body)
          /\ r = [h |-> r.h, id |-> r.id, body |-> r.body, auth |-> r.auth]
      BY DEF Inv, Replies, TypeOK, Dgram
    <3>2. d.id = Id /\ d.auth = Seal2(d.id, cur[c].auth, d.body)
      BY <2>3 DEF Verified
    <3>3. how = "no" \/ how \in {"body", "id", "auth"}
      BY DEF Hows
    <3>4. how # "body"
      <4> SUFFICES ASSUME how = "body" PROVE FALSE
        OBVIOUS
      <4>1. d.body = <<"x">> /\ d.auth = r.auth /\ d.id = r.id
        BY <3>1 DEF HurtR
      <4>2. <<"x">> = <<"answer", i>>
        BY <3>1, <3>2, <4>1 DEF Seal2
      <4> QED BY <4>2
    <3>5. how # "id"
      <4> SUFFICES ASSUME how = "id" PROVE FALSE
        OBVIOUS
      <4>1. d.body = r.body /\ d.auth = r.auth /\ d.id = 3 - r.id
        BY <3>1 DEF HurtR
      <4>2. 3 - r.id = r.id
        BY <3>1, <3>2, <4>1 DEF Seal2
      <4> QED BY <4>2, <3>1
    <3>6. how # "auth"
      <4> SUFFICES ASSUME how = "auth" PROVE FALSE
        OBVIOUS
      <4>1. d.auth = <<"junk">>
        BY <3>1 DEF HurtR
      <4>2. <<"junk">> = <<"R", d.id, cur[c].auth, d.body>>
        BY <3>2, <4>1 DEF Seal2
      <4> QED BY <4>2
    <3>7. d = r
      BY <3>3, <3>4, <3>5, <3>6
    <3>8. r.id = Id /\ hs[i].m.auth = cur[c].auth /\ v = <<"ok", <<"answer", i>>, i>>
      BY <3>1, <3>2, <3>7, <2>3 DEF Seal2
    <3>9. v[1] = "ok" /\ v[2] = <<"answer", i>>
      BY <3>8
    <3>10. cur[c].sealed \in BOOLEAN /\ Asked(c) \in reqs /\ (cur[c].sealed => cur[c].auth = SealOf(Id, cur[c].body)) /\ (~cur[c].sealed => cur[c].auth = <<"nonce", cur[c].n>>)
      <4>1. Asked(c) \in reqs
        BY <1>1 DEF Inv, Waits
      <4>2. Asked(c).sealed = cur[c].sealed /\ Asked(c).auth = cur[c].auth /\ Asked(c).body = cur[c].body /\ Asked(c).n = cur[c].n
        BY DEF Asked
      <4>3. Asked(c) \in Dgram /\ Asked(c).sealed \in BOOLEAN
        BY <4>1 DEF Inv, TypeOK, Dgram
      <4> QED BY <4>1, <4>2, <4>3 DEF Inv, Asks
    <3>11. ASSUME cur[c].sealed PROVE hs[i].m.body = cur[c].body
      <4>1. hs[i].m.auth = <<"H", Id, cur[c].body>>
        BY <3>8, <3>10, <3>11 DEF SealOf
      <4>2. hs[i].m.auth \notin Junk
        BY <4>1 DEF Junk
      <4>3. hs[i].m.sealed /\ hs[i].m.auth = SealOf(hs[i].m.id, hs[i].m.body)
        BY <4>2, <3>1 DEF Inv, Handled
      <4> QED BY <4>1, <4>3 DEF SealOf
    <3>12. ASSUME Corrupt = {}, ~cur[c].sealed PROVE hs[i].m.body = cur[c].body
      <4>1. hs[i].m \in reqs /\ hs[i].m.auth = <<"nonce", cur[c].n>>
        BY <3>1, <3>8, <3>10, <3>12 DEF Inv, Handled
      <4>2. ~hs[i].m.sealed
        <5> SUFFICES ASSUME hs[i].m.sealed PROVE FALSE
          OBVIOUS
        <5>1. <<"nonce", cur[c].n>> = <<"H", Id, hs[i].m.body>>
          BY <4>1 DEF Inv, Asks, SealOf
        <5> QED BY <5>1
      <4>3. <<"nonce", cur[c].n>> = <<"nonce", hs[i].m.n>>
        BY <4>1, <4>2 DEF Inv, Asks
      <4>4. hs[i].m.n = Asked(c).n
        BY <4>3 DEF Asked
      <4>5. hs[i].m = Asked(c)
        BY <4>1, <4>4, <3>10 DEF Inv, Asks
      <4> QED BY <4>5 DEF Asked
    <3>13. (cur[c].sealed \/ Corrupt = {}) => hs[i].m.body = cur[c].body
      BY <3>11, <3>12, <3>10
    <3> HIDE DEF v, d, i
    <3>14. /\ i \in 1..Len(hs)' /\ hs'[i].st = "done" /\ hs'[i].m.id = Id /\ hs'[i].m.auth = cur'[c].auth
           /\ cur'[c].res[2] = <<"answer", i>> /\ ((cur'[c].sealed \/ Corrupt = {}) => hs'[i].m.body = cur'[c].body)
      BY <1>1, <1>2, <3>1, <3>8, <3>9, <3>13
    <3> QED BY <1>1, <2>1, <3>14 DEF Inv, Answered
  <2> QED BY <2>2, <2>3
<1> QED BY <1>3, <1>4, <1>5, <1>6 DEF Inv

LEMMA TimeOutInv == ASSUME Inv, NEW c \in Clients, TimeOut(c) PROVE Inv'
<1>1. cur[c].st = "wait" /\ cur' = [cur EXCEPT ![c].st = "done", ![c].res = <<"timeout">>] /\ UNCHANGED <<calls, reqs, resps, hs>>
  BY DEF TimeOut
<1>2. /\ cur'[c].st = "done" /\ cur'[c].res = <<"timeout">> /\ cur'[c].n = cur[c].n /\ cur'[c].sealed = cur[c].sealed /\ cur'[c].auth = cur[c].auth /\ cur'[c].body = cur[c].body
      /\ \A k \in Clients : k # c => cur'[k] = cur[k]
      /\ DOMAIN cur' = Clients
      /\ cur'[c] = [st |-> cur'[c].st, n |-> cur'[c].n, sealed |-> cur'[c].sealed, auth |-> cur'[c].auth, body |-> cur'[c].body, res |-> cur'[c].res]
  BY <1>1 DEF Inv, TypeOK
<1>3. TypeOK' /\ Asks' /\ Idles'
  BY <1>1, <1>2 DEF Inv, TypeOK, Asks, Idles
<1>4. Waits'
  BY <1>1, <1>2 DEF Inv, Waits, Asked
<1>5. Handled' /\ Replies' /\ Exclusive' /\ Answered'
  BY <1>1, <1>2 DEF Inv, Handled, Replies, Exclusive, Answered
<1> QED BY <1>3, <1>4, <1>5 DEF Inv

LEMMA Step == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1>1. CASE UNCHANGED vars
  BY <1>1 DEF vars, Inv, TypeOK, Asks, Waits, Idles, Handled, Replies, Exclusive, Answered, Asked
<1> QED BY <1>1, CallInv, ToServerInv, EndInv, ToClientInv, TimeOutInv DEF Next

THEOREM Safe == Spec => [](Exclusive /\ Answered)
<1>1. Inv => Exclusive /\ Answered
  BY DEF Inv
<1> QED BY Init0, Step, <1>1, PTL DEF Spec
=============================================================================
