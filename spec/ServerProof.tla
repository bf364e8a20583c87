---------------------------- MODULE ServerProof ----------------------------
(* The specified server, with any number of keys, datagrams, tasks and      *)
(* runs: C13, C14, C15 and C16 of Server.tla are proved invariant (TLAPS).  *)
(* TLC checks the same formulas, and the faulty variants, within bounds.    *)
EXTENDS Server, Integers, TLAPS

VARIABLE sent                             \* how many datagrams have been sent
pvars == <<svars, sent>>

Datagram(n) == [n : {n}, key : Key, cls : Classes, tok : Nat]
PInit == SInit /\ sent = 0
PSend == \E d \in Datagram(sent + 1) : Send(d) /\ sent' = sent + 1
PNext == \/ PSend
         \/ (Run \/ Trigger \/ Receive \/ Return) /\ UNCHANGED sent
         \/ \E n \in Tasks : (TaskStep(n) \/ Start(n) \/ \E out \in {"ok", "err", "panic"} : End(n, out)) /\ UNCHANGED sent
PSpec == PInit /\ [][PNext]_pvars

PCs == {"fetch", "auth", "decode", "register", "start", "handle", "release", "done"}
Holds == {"start", "handle", "release"}           \* the stages in which a task holds its key
Datagrams == UNION {Datagram(n) : n \in Nat}

TypeOK == /\ sent \in Nat
          /\ queue \in Seq([n : Nat, key : Key, cls : Classes, tok : Nat])
          /\ \A i \in 1..Len(queue) : queue[i].n <= sent /\ queue[i].n \notin Tasks
          /\ \A i, j \in 1..Len(queue) : i # j => queue[i].n # queue[j].n
          /\ Tasks \in SUBSET Nat
          /\ \A n \in Tasks : n <= sent
          /\ task \in [Tasks -> [d : [n : Nat, key : Key, cls : Classes, tok : Nat], pc : PCs, out : {"", "ok", "err", "panic"}]]
Stages == \A n \in Tasks : /\ task[n].pc \in {"auth", "decode", "register"} \cup Holds => task[n].d.cls \notin {"nosecret", "panic"}
                           /\ task[n].pc \in {"decode", "register"} \cup Holds => task[n].d.cls # "unauth"
                           /\ task[n].pc \in {"register"} \cup Holds => task[n].d.cls # "malformed"
Once == \A a, b \in Tasks : a # b /\ task[a].pc \in Holds /\ task[b].pc \in Holds => task[a].d.key # task[b].d.key
Inv == TypeOK /\ Stages /\ Once /\ NoLeak

ASSUME IsSpec == Variant = "spec"

LEMMA Init0 == PInit => Inv
  BY DEF PInit, SInit, Inv, TypeOK, Stages, Once, NoLeak, Tasks, Holds, PCs

LEMMA Step == Inv /\ [PNext]_pvars => Inv'
<1> SUFFICES ASSUME Inv, [PNext]_pvars PROVE Inv'
  OBVIOUS
<1> USE IsSpec
<1>1. CASE UNCHANGED pvars
  BY <1>1 DEF pvars, svars, Inv, TypeOK, Stages, Once, NoLeak, Tasks, Holds, PCs
<1>2. CASE PSend
  <2>0. PICK d \in Datagram(sent + 1) : Send(d) /\ sent' = sent + 1
    BY <1>2 DEF PSend
  <2>1. UNCHANGED <<run, task, ongoing, buf>> /\ queue' = Append(queue, d) /\ sent' = sent + 1
    BY <2>0 DEF Send
  <2>2. d \in [n : Nat, key : Key, cls : Classes, tok : Nat] /\ d.n = sent + 1
    BY DEF Datagram, Inv, TypeOK
  <2>3. TypeOK'
    BY <2>1, <2>2 DEF Inv, TypeOK, Tasks
  <2> QED BY <2>1, <2>3 DEF Inv, Stages, Once, NoLeak, Tasks, Holds
<1>3. CASE (Run \/ Trigger \/ Return) /\ UNCHANGED sent
  <2>1. UNCHANGED <<queue, task, ongoing, sent>>
    BY <1>3 DEF Run, Trigger, Return
  <2> QED BY <2>1 DEF Inv, TypeOK, Stages, Once, NoLeak, Tasks, Holds, PCs
<1>4. CASE Receive /\ UNCHANGED sent
  <2> DEFINE d == Head(queue)
             D == [n : Nat, key : Key, cls : Classes, tok : Nat]
  <2>1. queue # <<>> /\ queue' = Tail(queue) /\ UNCHANGED <<run, ongoing, sent>>
    BY <1>4 DEF Receive
  <2>2. task' = [n \in Tasks \cup {d.n} |-> IF n = d.n THEN [d |-> d, pc |-> "fetch", out |-> ""] ELSE task[n]]
    BY <1>4 DEF Receive
  <2>3. d \in D /\ d = queue[1] /\ d.n \notin Tasks /\ d.n <= sent /\ 1 \in 1..Len(queue)
    BY <2>1 DEF Inv, TypeOK
  <2>4. /\ Tail(queue) \in Seq(D) /\ Len(Tail(queue)) = Len(queue) - 1
        /\ \A i \in 1..Len(Tail(queue)) : Tail(queue)[i] = queue[i + 1] /\ i + 1 \in 1..Len(queue) /\ i + 1 # 1
    BY <2>1 DEF Inv, TypeOK
  <2>5. Tasks' = Tasks \cup {d.n} /\ task'[d.n] = [d |-> d, pc |-> "fetch", out |-> ""] /\ \A n \in Tasks : task'[n] = task[n]
    BY <2>2, <2>3 DEF Tasks
  <2>6. TypeOK'
    <3>1. \A i \in 1..Len(queue') : queue'[i].n <= sent' /\ queue'[i].n \notin Tasks'
      BY <2>1, <2>3, <2>4, <2>5 DEF Inv, TypeOK
    <3>2. \A i, j \in 1..Len(queue') : i # j => queue'[i].n # queue'[j].n
      <4> SUFFICES ASSUME NEW i \in 1..Len(queue'), NEW j \in 1..Len(queue'), i # j PROVE queue'[i].n # queue'[j].n
        OBVIOUS
      <4>1. i \in Int /\ j \in Int /\ i + 1 # j + 1
        OBVIOUS
      <4> QED BY <4>1, <2>1, <2>4 DEF Inv, TypeOK
    <3>3. Tasks' \in SUBSET Nat /\ \A n \in Tasks' : n <= sent'
      BY <2>1, <2>3, <2>5 DEF Inv, TypeOK
    <3>4. task' \in [Tasks' -> [d : D, pc : PCs, out : {"", "ok", "err", "panic"}]]
      BY <2>2, <2>3, <2>5 DEF Inv, TypeOK, PCs
    <3> QED BY <3>1, <3>2, <3>3, <3>4, <2>1, <2>4 DEF Inv, TypeOK
  <2>7. Stages' /\ Once'
    BY <2>3, <2>5 DEF Inv, Stages, Once, Holds
  <2>8. NoLeak'
    BY <2>1, <2>3, <2>5 DEF Inv, NoLeak
  <2> QED BY <2>6, <2>7, <2>8 DEF Inv
<1>5. ASSUME NEW n \in Tasks, TaskStep(n) \/ Start(n) \/ \E out \in {"ok", "err", "panic"} : End(n, out), UNCHANGED sent
      PROVE Inv'
  <2> DEFINE D == [n : Nat, key : Key, cls : Classes, tok : Nat]
             k == task[n].d.key
             Moves(q, o) == task' = [task EXCEPT ![n].pc = q, ![n].out = o]
             Stage(q) == /\ q \in {"auth", "decode", "register"} \cup Holds => task[n].d.cls \notin {"nosecret", "panic"}
                         /\ q \in {"decode", "register"} \cup Holds => task[n].d.cls # "unauth"
                         /\ q \in {"register"} \cup Holds => task[n].d.cls # "malformed"
  <2>0. /\ TypeOK /\ Stages /\ Once /\ NoLeak
        /\ task[n] \in [d : D, pc : PCs, out : {"", "ok", "err", "panic"}] /\ k \in Key /\ KeyFor(task[n].d) = k
        /\ UNCHANGED <<run, queue, sent>>
    BY <1>5 DEF Inv, TypeOK, KeyFor, TaskStep, Start, End, Fetch, Authenticate, RegisterFirst, DecodeFirst, Decode, Register, Lookup, Insert, Release
  <2>1. ASSUME NEW q \in PCs, NEW o \in {"", "ok", "err", "panic"}, Moves(q, o)
        PROVE  /\ TypeOK' /\ Tasks' = Tasks /\ task'[n].pc = q /\ task'[n].d = task[n].d
               /\ \A m \in Tasks : m # n => task'[m] = task[m]
    BY <2>0, <2>1, <1>5 DEF TypeOK, Tasks
  <2>2. ASSUME NEW q \in PCs, NEW o \in {"", "ok", "err", "panic"}, Moves(q, o), Stage(q)
        PROVE  Stages'
    BY <2>0, <2>1, <2>2 DEF Stages, Holds
  (* neither holds the key before nor after, or both *)
  <2>3. ASSUME NEW q \in PCs, NEW o \in {"", "ok", "err", "panic"}, Moves(q, o), Stage(q), q \in Holds <=> task[n].pc \in Holds, ongoing' = ongoing
        PROVE  Inv'
    <3>1. Once'
      BY <2>0, <2>1, <2>3 DEF Once
    <3>2. NoLeak'
      BY <2>0, <2>1, <2>3 DEF NoLeak, Holds
    <3> QED BY <3>1, <3>2, <2>1, <2>2, <2>3 DEF Inv
  <2>4. task = [task EXCEPT ![n].out = @] /\ task[n].out \in {"", "ok", "err", "panic"}
    BY <2>0, <1>5 DEF TypeOK
  <2>5. ASSUME NEW q, Goto(n, q) PROVE Moves(q, task[n].out)
    BY <2>0, <2>4, <2>5, <1>5 DEF Goto, TypeOK
  <2>6. CASE Fetch(n)
    <3>1. task[n].pc = "fetch" /\ Goto(n, IF task[n].d.cls \in {"nosecret", "panic"} THEN "done" ELSE "auth") /\ ongoing' = ongoing
      BY <2>6 DEF Fetch, At
    <3> QED BY <3>1, <2>0, <2>3, <2>4, <2>5 DEF PCs, Holds, Stages
  <2>7. CASE Authenticate(n)
    <3>1. task[n].pc = "auth" /\ Goto(n, IF task[n].d.cls = "unauth" THEN "done" ELSE "decode") /\ ongoing' = ongoing
      BY <2>7 DEF Authenticate, At
    <3> QED BY <3>1, <2>0, <2>3, <2>4, <2>5, <1>5 DEF PCs, Holds, Stages
  <2>8. CASE Decode(n)
    <3>1. task[n].pc = "decode" /\ Goto(n, IF task[n].d.cls = "malformed" THEN "done" ELSE "register") /\ ongoing' = ongoing
      BY <2>8 DEF Decode, At
    <3> QED BY <3>1, <2>0, <2>3, <2>4, <2>5, <1>5 DEF PCs, Holds, Stages
  <2>9. CASE Register(n) /\ k \in ongoing
    <3>1. task[n].pc = "register" /\ Goto(n, "done") /\ ongoing' = ongoing
      BY <2>9, <2>0 DEF Register, At
    <3> QED BY <3>1, <2>0, <2>3, <2>4, <2>5 DEF PCs, Holds
  <2>10. CASE Register(n) /\ k \notin ongoing
    <3>1. task[n].pc = "register" /\ Goto(n, "start") /\ ongoing' = ongoing \cup {k}
      BY <2>10, <2>0 DEF Register, At
    <3>2. Moves("start", task[n].out) /\ Stage("start")
      BY <3>1, <2>0, <2>5, <1>5 DEF Stages, Holds
    <3>3. TypeOK' /\ Stages'
      BY <3>2, <2>1, <2>2, <2>4 DEF PCs
    <3>4. Tasks' = Tasks /\ task'[n].pc = "start" /\ task'[n].d = task[n].d /\ \A m \in Tasks : m # n => task'[m] = task[m]
      BY <3>2, <2>1, <2>4 DEF PCs
    <3>5. \A m \in Tasks : task[m].pc \in Holds => task[m].d.key # k
      BY <2>0, <2>10 DEF NoLeak, Holds
    <3>6. Once'
      BY <3>4, <3>5, <2>0 DEF Once, Holds
    <3>7. NoLeak'
      BY <3>1, <3>4, <2>0, <1>5 DEF NoLeak
    <3> QED BY <3>3, <3>6, <3>7 DEF Inv
  <2>11. CASE Start(n)
    <3>1. task[n].pc = "start" /\ Goto(n, "handle") /\ ongoing' = ongoing
      BY <2>11 DEF Start, At
    <3> QED BY <3>1, <2>0, <2>3, <2>4, <2>5, <1>5 DEF PCs, Holds, Stages
  <2>12. ASSUME NEW out \in {"ok", "err", "panic"}, End(n, out) PROVE Inv'
    <3>1. task[n].pc = "handle" /\ Moves("release", out) /\ ongoing' = ongoing
      BY <2>12 DEF End, At
    <3> QED BY <3>1, <2>0, <2>3, <1>5 DEF PCs, Holds, Stages
  <2>13. CASE Release(n)
    <3>1. task[n].pc = "release" /\ Goto(n, "done") /\ ongoing' = ongoing \ {k}
      BY <2>13, <2>0 DEF Release, At
    <3>2. Moves("done", task[n].out) /\ Stage("done")
      BY <3>1, <2>5 DEF Holds
    <3>3. TypeOK' /\ Stages'
      BY <3>2, <2>1, <2>2, <2>4 DEF PCs
    <3>4. Tasks' = Tasks /\ task'[n].pc = "done" /\ task'[n].d = task[n].d /\ \A m \in Tasks : m # n => task'[m] = task[m]
      BY <3>2, <2>1, <2>4 DEF PCs
    <3>5. Once'
      BY <3>4, <2>0 DEF Once, Holds
    <3>6. \A m \in Tasks : m # n /\ task[m].pc \in Holds => task[m].d.key # k
      BY <3>1, <2>0, <1>5 DEF Once, Holds
    <3>7. NoLeak'
      BY <3>1, <3>4, <3>6, <2>0, <1>5 DEF NoLeak, Holds
    <3> QED BY <3>3, <3>5, <3>7 DEF Inv
  <2>14. ~RegisterFirst(n) /\ ~DecodeFirst(n) /\ ~Lookup(n) /\ ~Insert(n)
    BY <2>0 DEF RegisterFirst, DecodeFirst, Lookup, Insert, At, PCs
  <2> QED BY <1>5, <2>6, <2>7, <2>8, <2>9, <2>10, <2>11, <2>12, <2>13, <2>14 DEF TaskStep
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5 DEF PNext

THEOREM Always == PSpec => []Inv
  BY Init0, Step, PTL DEF PSpec

THEOREM Safe == PSpec => [](Exclusive /\ NoLeak /\ Gate /\ OwnContent /\ NotAborted)
<1>1. Inv => Exclusive /\ NoLeak /\ Gate /\ OwnContent /\ NotAborted
  BY IsSpec DEF Inv, TypeOK, Stages, Once, Exclusive, NoLeak, Gate, OwnContent, NotAborted, Handling, Holds, PCs, Classes, Seen
<1> QED BY <1>1, Always, PTL
=============================================================================
