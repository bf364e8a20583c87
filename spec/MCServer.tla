------------------------------ MODULE MCServer ------------------------------
(* Model checking of the server and of the monitor.  The environment sends  *)
(* at most MaxSend datagrams, retransmits, ends handlers, shuts down and    *)
(* runs again at most MaxRun times; the driver's settled event may occur    *)
(* whenever the server is quiet.                                            *)
EXTENDS Server, ServerMonitor

CONSTANTS MaxSend, MaxRun, Classes0, Outcomes

VARIABLES mon, sent, runs
vars == <<svars, mon, sent, runs>>

Src == {"s1", "s2"}
Keys2 == {<<"s1", 1>>, <<"s2", 1>>}
Keys3 == {<<"s1", 1>>, <<"s2", 1>>, <<"s1", 2>>}

Ev(ev) == mon' = MonStep(mon, ev)
Silent == UNCHANGED mon

Init == SInit /\ mon = MonInit /\ sent = <<>> /\ runs = 0

DoSend(k, c, tok) ==
  /\ Len(sent) < MaxSend
  /\ LET d == [n |-> Len(sent) + 1, key |-> k, cls |-> c, tok |-> tok] IN
     /\ Send(d) /\ sent' = Append(sent, d)
     /\ Ev([e |-> "send", d |-> d.n, key |-> k, tok |-> tok, acc |-> IF c = "ok" THEN "yes" ELSE "no"])
  /\ UNCHANGED runs
SendNew == \E k \in Key, c \in Classes0 : DoSend(k, c, Len(sent) + 1)
Resend == \E i \in 1..Len(sent) : sent[i].tok = i /\ DoSend(sent[i].key, sent[i].cls, i)

DoRun     == runs < MaxRun /\ Run /\ runs' = runs + 1 /\ Ev([e |-> "run"]) /\ UNCHANGED sent
DoTrigger == Trigger /\ Ev([e |-> "trigger"]) /\ UNCHANGED <<sent, runs>>
DoReturn  == Return /\ Ev([e |-> "returned", res |-> "ok"]) /\ UNCHANGED <<sent, runs>>
DoStart(n) == /\ Start(n)
              /\ LET d == task[Seen(n)].d
                 IN  Ev([e |-> "start", h |-> n, key |-> <<task[n].d.key[1], d.key[2]>>, tok |-> d.tok])
              /\ UNCHANGED <<sent, runs>>
DoEnd(n) == \E out \in Outcomes : End(n, out) /\ Ev([e |-> "end", h |-> n]) /\ UNCHANGED <<sent, runs>>
DoAbort == /\ \E n \in Tasks : task[n].pc = "aborted" /\ Ev([e |-> "aborted", h |-> n])
           /\ UNCHANGED <<svars, sent, runs>>
DoSettle == Quiet /\ Ev([e |-> "settled"]) /\ UNCHANGED <<svars, sent, runs>>
DoReceive == Receive /\ Silent /\ UNCHANGED <<sent, runs>>
DoTask(n) == TaskStep(n) /\ Silent /\ UNCHANGED <<sent, runs>>

Next == SendNew \/ Resend \/ DoRun \/ DoTrigger \/ DoReturn \/ DoReceive \/ DoAbort \/ DoSettle
        \/ \E n \in Tasks : DoStart(n) \/ DoEnd(n) \/ DoTask(n)
Fair == /\ WF_vars(DoReceive) /\ WF_vars(DoReturn)
        /\ \A n \in 1..MaxSend : WF_vars(n \in Tasks /\ (DoTask(n) \/ DoStart(n)))
Spec == Init /\ [][Next]_vars /\ Fair

MonitorAccepts == mon.ok
View == <<run, queue, task, ongoing, mon, runs>>     \* buf matters only to sharedBuffer; sent is a function of the rest

(* Liveness: each received datagram is taken care of, and shutdown ends.    *)
Resolved == \A n \in 1..MaxSend : [](n \in Tasks => <>(At(n, "handle") \/ At(n, "release") \/ At(n, "done")))
Returns == (run = "stop") ~> (run = "off")
ReleasedEventually == \A n \in 1..MaxSend : [](At(n, "release") => <>At(n, "done"))
Serves == [](run = "on" /\ queue # <<>> => <>(queue = <<>> \/ run = "off"))
=============================================================================
