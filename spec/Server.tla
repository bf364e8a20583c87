------------------------------- MODULE Server -------------------------------
(* The server: a receive loop that hands each datagram to a task of its     *)
(* own, which asks for the secret, validates, decodes, registers the        *)
(* request under its key (source address and port, identifier), runs the    *)
(* handler and releases the key.  One action per step of the code whose     *)
(* order against other tasks matters (radius/src/server.rs: run, run_loop,  *)
(* process_request, UndergoingRequest::drop).                               *)
(*                                                                          *)
(* A datagram is [n, key, cls, tok]: a serial number, its key, its class    *)
(*   "ok"        authentic, well-formed, from a source with a secret        *)
(*   "nosecret"  the provider fails, or gives the empty secret              *)
(*   "panic"     the provider panics                                        *)
(*   "unauth"    not authentic under the secret                             *)
(*   "malformed" does not decode                                            *)
(* and its content token tok (a retransmission has the same token).         *)
(*                                                                          *)
(* Variant selects the specified server ("spec") or a faulty one; the       *)
(* faulty ones exist to show that the properties and the monitor can fail.  *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Key, Variant

VARIABLES run,      \* "off", "on", "stop" (trigger completed, not returned)
          queue,    \* datagrams in the socket buffer
          task,     \* tasks, by serial number of their datagram
          ongoing,  \* registered keys
          buf       \* last datagram received (the receive buffer)
svars == <<run, queue, task, ongoing, buf>>

SInit == run = "off" /\ queue = <<>> /\ task = <<>> /\ ongoing = {} /\ buf = 0

Classes == {"ok", "nosecret", "panic", "unauth", "malformed"}
PC(n) == task[n].pc
Tasks == DOMAIN task
At(n, pc) == n \in Tasks /\ task[n].pc = pc
Goto(n, pc) == task' = [task EXCEPT ![n].pc = pc]
Handling == {n \in Tasks : task[n].pc = "handle"}
KeyFor(d) == IF Variant = "keyIgnoresSource" THEN <<"any", d.key[2]>> ELSE d.key

(* Environment: a datagram reaches the socket, whether or not it is served. *)
Send(d) == queue' = Append(queue, d) /\ UNCHANGED <<run, task, ongoing, buf>>

Run == /\ run = "off" /\ run' = "on"
       /\ ongoing' = IF Variant = "forgetOnRun" THEN {} ELSE ongoing
       /\ UNCHANGED <<queue, task, buf>>
Trigger == run = "on" /\ run' = "stop" /\ UNCHANGED <<queue, task, ongoing, buf>>

CanReceive == \/ run \in {"on", "stop"}
              \/ Variant = "loopOutlivesRun" /\ run = "off" /\ Tasks # {}
(* Receiving copies the datagram out of the buffer and spawns a task.       *)
Receive == /\ CanReceive /\ queue # <<>>
           /\ Variant = "serial" => Handling = {}
           /\ LET d == Head(queue) IN
              /\ task' = [n \in Tasks \cup {d.n} |-> IF n = d.n THEN [d |-> d, pc |-> "fetch", out |-> ""] ELSE task[n]]
              /\ buf' = d.n
           /\ queue' = Tail(queue) /\ UNCHANGED <<run, ongoing>>

Return == /\ run = "stop" /\ run' = "off"
          /\ task' = IF Variant = "abortOnShutdown"
                     THEN [n \in Tasks |-> [task[n] EXCEPT !.pc = IF @ = "handle" THEN "aborted" ELSE @]] ELSE task
          /\ UNCHANGED <<queue, ongoing, buf>>

Fetch(n) == /\ At(n, "fetch")
            /\ Goto(n, IF task[n].d.cls \in {"nosecret", "panic"} THEN "done"
                       ELSE IF Variant = "skipAuth" THEN "decode" ELSE "auth")
            /\ UNCHANGED <<run, queue, ongoing, buf>>
Authenticate(n) == /\ At(n, "auth")
                   /\ Goto(n, IF task[n].d.cls = "unauth" THEN "done"
                              ELSE IF Variant = "registerFirst" THEN "register0" ELSE "decode")
                   /\ UNCHANGED <<run, queue, ongoing, buf>>
(* a faulty order: the key is taken before the datagram is decoded *)
RegisterFirst(n) == /\ At(n, "register0")
                    /\ IF KeyFor(task[n].d) \in ongoing THEN Goto(n, "done") /\ UNCHANGED ongoing
                       ELSE Goto(n, "decode1") /\ ongoing' = ongoing \cup {KeyFor(task[n].d)}
                    /\ UNCHANGED <<run, queue, buf>>
DecodeFirst(n) == /\ At(n, "decode1")
                  /\ Goto(n, IF task[n].d.cls = "malformed" THEN "done" ELSE "start")
                  /\ UNCHANGED <<run, queue, ongoing, buf>>
Decode(n) == /\ At(n, "decode")
             /\ Goto(n, IF task[n].d.cls = "malformed" THEN "done" ELSE "register")
             /\ UNCHANGED <<run, queue, ongoing, buf>>
(* Looking the key up and entering it is one step, under the lock.          *)
Register(n) == /\ Variant # "checkThenInsert" /\ At(n, "register")
               /\ IF KeyFor(task[n].d) \in ongoing
                  THEN Goto(n, IF Variant = "queueDuplicate" THEN "register" ELSE "done") /\ UNCHANGED ongoing
                  ELSE Goto(n, "start") /\ ongoing' = ongoing \cup {KeyFor(task[n].d)}
               /\ UNCHANGED <<run, queue, buf>>
(* a faulty server looks up and inserts in two critical sections *)
Lookup(n) == /\ Variant = "checkThenInsert" /\ At(n, "register")
             /\ Goto(n, IF KeyFor(task[n].d) \in ongoing THEN "done" ELSE "insert")
             /\ UNCHANGED <<run, queue, ongoing, buf>>
Insert(n) == /\ At(n, "insert") /\ Goto(n, "start")
             /\ ongoing' = ongoing \cup {KeyFor(task[n].d)} /\ UNCHANGED <<run, queue, buf>>
(* The handler is invoked with the packet of the task's datagram.           *)
Seen(n) == IF Variant = "sharedBuffer" THEN buf ELSE n
Start(n) == At(n, "start") /\ Goto(n, "handle") /\ UNCHANGED <<run, queue, ongoing, buf>>
(* It ends with success, an error or a panic.                               *)
End(n, out) == /\ At(n, "handle")
               /\ task' = [task EXCEPT ![n].pc = IF (Variant = "leakOnPanic" /\ out = "panic")
                                                    \/ (Variant = "leakOnError" /\ out = "err") THEN "done" ELSE "release",
                                       ![n].out = out]
               /\ UNCHANGED <<run, queue, ongoing, buf>>
Release(n) == At(n, "release") /\ Goto(n, "done") /\ ongoing' = ongoing \ {KeyFor(task[n].d)} /\ UNCHANGED <<run, queue, buf>>

TaskStep(n) == Fetch(n) \/ Authenticate(n) \/ RegisterFirst(n) \/ DecodeFirst(n) \/ Decode(n)
               \/ Register(n) \/ Lookup(n) \/ Insert(n) \/ Release(n)
Internal == Receive \/ Return \/ (\E n \in Tasks : TaskStep(n) \/ Start(n))

----------------------------------------------------------------------------
(* The properties.                                                          *)

(* C13 *)
Exclusive == \A a, b \in Handling : a # b => task[a].d.key # task[b].d.key
(* C14: a key is registered exactly while a task of it is between           *)
(* registration and release, so nothing else can make a request be dropped. *)
NoLeak == ongoing = {task[n].d.key : n \in {m \in Tasks : task[m].pc \in {"start", "handle", "release"}}}
(* C15 *)
Gate == \A n \in Handling : task[n].d.cls = "ok"
(* C16 *)
OwnContent == \A n \in Tasks : task[n].pc = "start" => Seen(n) = n
(* C17 *)
NotAborted == \A n \in Tasks : task[n].pc # "aborted"

(* nothing is left to do for the server itself *)
Quiet == /\ run # "stop" /\ (run = "on" => queue = <<>>)
         /\ \A n \in Tasks : (task[n].pc \in {"handle", "done", "aborted"})
                            \/ (Variant = "queueDuplicate" /\ task[n].pc = "register" /\ KeyFor(task[n].d) \in ongoing)
=============================================================================
