------------------------------- MODULE System -------------------------------
(* Clients, a hostile network and the server together.  Cryptography is     *)
(* symbolic: a digest is a term that contains what was hashed, so only who  *)
(* knows the secret can make it; corruption can change any field but cannot *)
(* make such a term for changed contents.  Datagrams are never forgotten by *)
(* the network, which covers loss, duplication, reordering, delay and       *)
(* replay.  The history of actions (hist) is what is replayed on the real   *)
(* client and server (harness/src/bin/system.rs).                           *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Clients, MaxCalls, MaxStart, MaxLen, Corrupt, Variant, Bodies

VARIABLES cur,      \* the exchange of each client: [st, n, sealed, nonce, body, res]
          calls,    \* number of calls so far (nonces)
          reqs,     \* datagrams towards the server, as sent or corrupted
          resps,    \* datagrams towards the clients
          hs,       \* handlers ever started: [m, st, n]
          hist
vars == <<cur, calls, reqs, resps, hs, hist>>

Id == 1
Idle == [st |-> "idle", n |-> 0, sealed |-> FALSE, auth |-> <<"none">>, body |-> <<"none">>, res |-> <<"none">>]
Init == /\ cur = [c \in Clients |-> Idle] /\ calls = 0 /\ reqs = {} /\ resps = {} /\ hs = <<>> /\ hist = <<>>
H(op) == hist' = Append(hist, op)

SealOf(id, body) == <<"H", id, body>>
Call(c, sealed, body) ==
  /\ cur[c].st # "wait" /\ calls < MaxCalls
  /\ calls' = calls + 1
  /\ LET n == calls + 1
         auth == IF sealed THEN SealOf(Id, <<"q", body>>) ELSE <<"nonce", n>>
     IN  /\ cur' = [cur EXCEPT ![c] = [st |-> "wait", n |-> n, sealed |-> sealed, auth |-> auth, body |-> <<"q", body>>, res |-> <<"none">>]]
         /\ reqs' = reqs \cup {[c |-> c, n |-> n, sealed |-> sealed, auth |-> auth, body |-> <<"q", body>>, id |-> Id]}
  /\ H([op |-> "call", c |-> c, sealed |-> sealed, body |-> body]) /\ UNCHANGED <<resps, hs>>

Hurt(m, how) == CASE how = "body" -> [m EXCEPT !.body = <<"x">>]
                  [] how = "id"   -> [m EXCEPT !.id = 2]
                  [] how = "auth" -> [m EXCEPT !.auth = <<"junk">>]
Acceptable(m) == m.sealed => m.auth = SealOf(m.id, m.body) \/ Variant = "unsealed"
Busy(m) == \E i \in 1..Len(hs) : hs[i].m.c = m.c /\ hs[i].m.id = m.id /\ hs[i].st = "run"
(* A datagram of client c (any it ever sent) reaches the server.            *)
ToServer(m, how) ==
  /\ LET d == IF how = "no" THEN m ELSE Hurt(m, how) IN
     IF Acceptable(d) /\ (~Busy(d) \/ Variant = "nodedup")
     THEN Len(hs) < MaxStart /\ hs' = Append(hs, [m |-> d, st |-> "run"])
     ELSE UNCHANGED hs
  /\ H([op |-> "toserver", c |-> m.c, n |-> m.n, how |-> how]) /\ UNCHANGED <<cur, calls, reqs, resps>>
(* A handler answers and ends.                                              *)
Seal2(id, auth, body) == <<"R", id, auth, body>>
EndHandler(i) ==
  /\ hs[i].st = "run" /\ hs' = [hs EXCEPT ![i].st = "done"]
  /\ resps' = resps \cup {[h |-> i, id |-> hs[i].m.id, body |-> <<"answer", i>>,
                               auth |-> Seal2(hs[i].m.id, hs[i].m.auth, <<"answer", i>>)]}
  /\ H([op |-> "end", h |-> i]) /\ UNCHANGED <<cur, calls, reqs>>
(* A datagram from the server reaches client c.                             *)
HurtR(r, how) == IF how = "body" THEN [r EXCEPT !.body = <<"x">>] ELSE IF how = "id" THEN [r EXCEPT !.id = 3 - @] ELSE [r EXCEPT !.auth = <<"junk">>]
Verified(x, r) == r.id = Id /\ (r.auth = Seal2(r.id, x.auth, r.body) \/ Variant = "trusting")
ToClient(c, r, how) ==
  /\ cur[c].st = "wait"
  /\ LET d == IF how = "no" THEN r ELSE HurtR(r, how) IN
     cur' = [cur EXCEPT ![c].st = "done", ![c].res = IF Verified(cur[c], d) THEN <<"ok", d.body, r.h>> ELSE <<"error">>]
  /\ H([op |-> "toclient", c |-> c, h |-> r.h, how |-> how]) /\ UNCHANGED <<calls, reqs, resps, hs>>
TimeOut(c) == cur[c].st = "wait" /\ cur' = [cur EXCEPT ![c].st = "done", ![c].res = <<"timeout">>]
              /\ H([op |-> "timeout", c |-> c]) /\ UNCHANGED <<calls, reqs, resps, hs>>

Hows == {"no"} \cup Corrupt
Next == /\ Len(hist) < MaxLen
        /\ \/ \E c \in Clients, s \in BOOLEAN, b \in Bodies : Call(c, s, b)
           \/ \E m \in reqs, how \in Hows : ToServer(m, how)
           \/ \E i \in 1..Len(hs) : EndHandler(i)
           \/ \E c \in Clients, r \in resps, how \in Hows : ToClient(c, r, how)
           \/ \E c \in Clients : TimeOut(c)
Spec == Init /\ [][Next]_vars

(* C24 *)
Exclusive == \A i, j \in 1..Len(hs) : i # j /\ hs[i].st = "run" /\ hs[j].st = "run" => <<hs[i].m.c, hs[i].m.id>> # <<hs[j].m.c, hs[j].m.id>>
Answered == \A c \in Clients : LET x == cur[c] IN
  x.res[1] = "ok" =>
    \E i \in 1..Len(hs) : /\ hs[i].st = "done"
                          /\ hs[i].m.id = Id /\ hs[i].m.auth = x.auth
                          /\ x.res[2] = <<"answer", i>>
                          /\ (x.sealed \/ Corrupt = {}) => hs[i].m.body = x.body
View == <<cur, calls, reqs, resps, hs>>
=============================================================================
