----------------------------- MODULE TraceSystem ----------------------------
(* Validates recorded histories of real clients and the real server over a  *)
(* network that loses, duplicates, reorders, delays, corrupts and replays   *)
(* datagrams (harness/src/bin/system.rs), i.e. the invariants of System.tla *)
(* over what was observed.  Events:                                         *)
(*   call     c, n, code, id, secret, attrs, pw: client c's n-th exchange   *)
(*   sent     c, n, b: its datagram has entered the network                 *)
(*   toserver s, b: the network delivers b to the server from source s      *)
(*   start    h, s, code, id, auth, secret, attrs, pw: handler h starts     *)
(*   end      h, s, code, attrs, tp, b: it answers and ends                 *)
(*   stray    s, b: the server sent a datagram that no handler made         *)
(*   toclient c, b: the network delivers b to client c                      *)
(*   result   c, n, kind, p, tp, lookup                                     *)
(*   over     clean, linger                                                 *)
EXTENDS RadiusPrims, FiniteSets, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES si, l, calls, hs, sent, hurt
vars == <<si, l, calls, hs, sent, hurt>>

WireAuth(b) == SubSeq(HexBytes(b), 5, 20)
Attrs(list) == {<<a.t, a.vs>> : a \in {list[i] : i \in 1..Len(list)}}
Sealed(code) == code \in {4, 40, 43}

Put(f, k, x) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j]]
S0 == [ok |-> TRUE, why |-> {}, calls |-> calls, hs |-> hs, sent |-> sent, hurt |-> hurt]
No(why) == [S0 EXCEPT !.ok = FALSE, !.why = {why}]

(* The handlers whose answer is the packet that exchange x returned. *)
Same(h, x, ev) == /\ h.st = "done" /\ h.id = x.id /\ h.secret = x.secret /\ HexBytes(h.auth) = WireAuth(x.wire)
                  /\ ev.p.id = x.id /\ ev.p.secret = x.secret
                  /\ ev.p.code = h.rcode /\ Attrs(ev.p.attrs) = h.rattrs
Own(h, x) == h.code = x.code /\ h.attrs = x.attrs /\ h.pw = x.pw
OnResult(ev) ==
  LET x == calls[<<ev.c, ev.n>>]
      from == {h \in DOMAIN hs : Same(hs[h], x, ev)}
  IN  IF ev.kind = "panic" THEN No("panic")
      ELSE IF ev.kind # "ok" THEN [S0 EXCEPT !.calls = [calls EXCEPT ![<<ev.c, ev.n>>].res = ev.kind]]
      ELSE IF x.wire = "" THEN No("answeredUnsent")
      ELSE IF from = {} THEN No("notHandlersAnswer")
      ELSE IF (Sealed(x.code) \/ ~hurt) /\ ~\E h \in from : Own(hs[h], x) THEN No("requestChanged")
      ELSE IF ~\E h \in from : hs[h].tp = ev.tp THEN No("tunnelPassword")
      ELSE [S0 EXCEPT !.calls = [calls EXCEPT ![<<ev.c, ev.n>>].res = "ok"]]

OnOver(ev) ==
  IF ev.clean /\ \E k \in DOMAIN calls : calls[k].res # "ok" THEN No("notAnswered")
  ELSE IF ev.linger /\ \E k \in DOMAIN calls : calls[k].res = "none" THEN No("noResult")
  ELSE S0

Apply(ev) ==
  CASE ev.e = "call" -> [S0 EXCEPT !.calls = Put(calls, <<ev.c, ev.n>>, [code |-> ev.code, id |-> ev.id, secret |-> ev.secret, attrs |-> Attrs(ev.attrs),
                                                                     pw |-> ev.pw, wire |-> "", res |-> "none"])]
    [] ev.e = "sent" -> [S0 EXCEPT !.sent = @ \cup {ev.b}, !.calls = [calls EXCEPT ![<<ev.c, ev.n>>].wire = ev.b]]
    [] ev.e = "toserver" -> [S0 EXCEPT !.hurt = @ \/ ev.b \notin sent]
    [] ev.e = "start" -> IF \E h \in DOMAIN hs : hs[h].st = "run" /\ hs[h].s = ev.s /\ hs[h].id = ev.id THEN No("overlap")
                         ELSE [S0 EXCEPT !.hs = Put(hs, ev.h, [st |-> "run", s |-> ev.s, code |-> ev.code, id |-> ev.id, auth |-> ev.auth,
                                                               secret |-> ev.secret, attrs |-> Attrs(ev.attrs), pw |-> ev.pw,
                                                               rcode |-> 0, rattrs |-> {}, tp |-> "none"])]
    [] ev.e = "end" -> [S0 EXCEPT !.hs = [hs EXCEPT ![ev.h] = [@ EXCEPT !.st = "done", !.rcode = ev.code, !.rattrs = Attrs(ev.attrs), !.tp = ev.tp]]]
    [] ev.e = "stray" -> No("strayReply")
    [] ev.e = "result" -> OnResult(ev)
    [] ev.e = "over" -> OnOver(ev)
    [] OTHER -> S0

Empty == [j \in {} |-> 0]
Init == si \in 1..Len(Sessions) /\ l = 1 /\ calls = Empty /\ hs = Empty /\ sent = {} /\ hurt = FALSE
Next == /\ l <= Len(Sessions[si].ev)
        /\ LET r == Apply(Sessions[si].ev[l]) IN
           /\ IF r.ok THEN TRUE ELSE PrintT(<<"REJECTED", si, l, r.why>>)
           /\ r.ok
           /\ calls' = r.calls /\ hs' = r.hs /\ sent' = r.sent /\ hurt' = r.hurt
        /\ l' = l + 1 /\ UNCHANGED si
Cursor == <<si, l>>                     \* the state is a function of the position in the trace
Spec == Init /\ [][Next]_vars
=============================================================================
