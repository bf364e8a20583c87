------------------------------ MODULE GenServer -----------------------------
(* Behaviours of the server at the grain of its environment, for replay on  *)
(* the real one: each action is one thing the environment does, after which *)
(* the server has settled.  Server's internal steps are run to completion,  *)
(* so the number of handlers started is determined and the driver knows     *)
(* what to wait for; whether the real server did right is then decided on   *)
(* the recorded trace by TraceServer.                                       *)
(*                                                                          *)
(* hist is the history so far.  With VIEW View, TLC visits each abstract    *)
(* state once and Emit prints one history per transition of the abstract    *)
(* state graph; with -simulate, EmitEnd prints long random histories.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS NKey, MaxLen, MaxRuns, Bads, Outs
VARIABLES run, runs, busy, q, last, dup, bad, starts, hist
vars == <<run, runs, busy, q, last, dup, bad, starts, hist>>
Keys == 1..NKey

Init == /\ run = TRUE /\ runs = 1 /\ busy = [k \in Keys |-> FALSE] /\ q = <<>>
        /\ last = [k \in Keys |-> "none"] /\ dup = [k \in Keys |-> FALSE] /\ bad = [k \in Keys |-> FALSE]
        /\ starts = 0 /\ hist = <<>>

H(op, n) == hist' = Append(hist, op @@ [starts |-> n]) /\ starts' = n

SendReq(k, same) ==
  /\ same => \E i \in 1..Len(hist) : hist[i].op = "send" /\ hist[i].k = k
  /\ IF ~run THEN /\ Len(q) < 3 /\ q' = Append(q, k) /\ UNCHANGED <<busy, dup>>
                  /\ H([op |-> "send", k |-> k, same |-> same], starts)
     ELSE IF busy[k] THEN dup' = [dup EXCEPT ![k] = TRUE] /\ UNCHANGED <<busy, q>> /\ H([op |-> "send", k |-> k, same |-> same], starts)
     ELSE busy' = [busy EXCEPT ![k] = TRUE] /\ UNCHANGED <<dup, q>> /\ H([op |-> "send", k |-> k, same |-> same], starts + 1)
  /\ UNCHANGED <<run, runs, last, bad>>
SendBad(k, c) == /\ bad' = [bad EXCEPT ![k] = TRUE]
                 /\ H([op |-> "bad", k |-> k, cls |-> c], starts)
                 /\ UNCHANGED <<run, runs, busy, q, last, dup>>
End(k, o) == /\ busy[k] /\ busy' = [busy EXCEPT ![k] = FALSE] /\ last' = [last EXCEPT ![k] = o]
             /\ dup' = [dup EXCEPT ![k] = FALSE] /\ bad' = [bad EXCEPT ![k] = FALSE]
             /\ H([op |-> "end", k |-> k, out |-> o], starts) /\ UNCHANGED <<run, runs, q>>
Stop == run /\ run' = FALSE /\ H([op |-> "stop"], starts) /\ UNCHANGED <<runs, busy, q, last, dup, bad>>
Run == /\ ~run /\ runs < MaxRuns /\ run' = TRUE /\ runs' = runs + 1 /\ q' = <<>>
       /\ LET ks == {q[i] : i \in 1..Len(q)}
              new == {k \in ks : ~busy[k]}
          IN  /\ busy' = [k \in Keys |-> busy[k] \/ k \in new]
              /\ dup' = [k \in Keys |-> dup[k] \/ (k \in ks /\ (busy[k] \/ Cardinality({i \in 1..Len(q) : q[i] = k}) > 1))]
              /\ H([op |-> "run"], starts + Cardinality(new))
       /\ UNCHANGED <<last, bad>>

Next == /\ Len(hist) < MaxLen
        /\ \/ \E k \in Keys, same \in BOOLEAN : SendReq(k, same)
           \/ \E k \in Keys, c \in Bads : SendBad(k, c)
           \/ \E k \in Keys, o \in Outs : End(k, o)
           \/ Stop \/ Run
Spec == Init /\ [][Next]_vars

View == <<run, runs, busy, q, last, dup, bad>>
Emit == PrintT("HISTORY " \o ToJson(hist'))
EmitEnd == Len(hist) = MaxLen => PrintT("HISTORY " \o ToJson(hist))
=============================================================================
