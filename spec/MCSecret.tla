------------------------------ MODULE MCSecret ------------------------------
(* Non-interference of secrets (C22), by self-composition: two histories    *)
(* that differ in the secret only, in lockstep.  Shown is what the debug    *)
(* text of a packet and the text of an error may depend on; it must be the  *)
(* same in both.  Encoding and verifying depend on the secret by design and *)
(* yield octets and verdicts, no texts; the kinds of error they may report  *)
(* do not depend on it, except that an empty secret is reported as such.    *)
EXTENDS Dictionary, FiniteSets, TLC
CONSTANTS Depth, Leak

Secrets == {<<115>>, <<115, 51, 99>>, <<42, 114>>}
Auth1 == [i \in 1..16 |-> i]
Codes == {1, 4, 2, 13}
Wires == {<<1, 5, 0, 20>> \o Auth1, <<4, 6, 0, 23>> \o Auth1 \o <<1, 3, 9>>, <<1, 5, 0, 19>> \o Auth1, <<1, 5, 0, 22>> \o Auth1 \o <<1, 1>>, <<77, 0, 0, 20>> \o Auth1, <<1>>}

VARIABLES s, t, ps, qs, errs, steps
vars == <<s, t, ps, qs, errs, steps>>
Init == /\ s \in Secrets /\ t \in Secrets /\ s # t /\ ps = <<>> /\ qs = <<>> /\ errs = <<{}, {}>> /\ steps = 0

Both(p, q) == Len(ps) < 3 /\ ps' = Append(ps, p) /\ qs' = Append(qs, q) /\ errs' = <<{}, {}>>
Change(i, F(_)) == ps' = [ps EXCEPT ![i] = F(@)] /\ qs' = [qs EXCEPT ![i] = F(@)] /\ errs' = <<{}, {}>>
ErrsOf(r) == IF r.ok THEN {} ELSE r.errs
Quiet == UNCHANGED <<ps, qs>>
Next ==
  /\ steps < Depth /\ steps' = steps + 1 /\ UNCHANGED <<s, t>>
  /\ \/ \E c \in Codes : Both(NewPacket(c, 3, Auth1, s), NewPacket(c, 3, Auth1, t))
     \/ \E w \in Wires : LET d == Decode(w, s) e == Decode(w, t) IN
          IF d.ok /\ e.ok THEN Both(d.packet, e.packet) ELSE Quiet /\ errs' = <<ErrsOf(d), ErrsOf(e)>>
     \/ \E i \in 1..Len(ps) :
          \/ \E v \in {<<1>>, [k \in 1..254 |-> 0]} : Change(i, LAMBDA p : AddAttr(p, [t |-> 1, v |-> v]))
          \/ Change(i, LAMBDA p : DeleteAttrs(p, 1))
          \/ Change(i, LAMBDA p : SetId(p, 9))
          \/ Both(MakeResponse(ps[i], 2), MakeResponse(qs[i], 2))
          \/ Both(ps[i], qs[i])
          \/ Quiet /\ errs' = <<ErrsOf(Encode(ps[i])), ErrsOf(Encode(qs[i]))>>
     \/ \E n \in {0, 128, 129}, a \in {Auth1, <<1>>} : LET w(x) == ErrsOf(WriteUserPw([k \in 1..n |-> 1], x, a)) IN Quiet /\ errs' = <<w(s), w(t)>>
     \/ \E n \in {0, 15, 16, 17, 129}, a \in {Auth1, <<1>>} :
          \/ LET r(x) == ErrsOf(ReadUserPw([k \in 1..n |-> 200], x, a)) IN Quiet /\ errs' = <<r(s), r(t)>>
          \/ LET r(x) == ErrsOf(ReadTunnelPw([k \in 1..(n + 3) |-> n], x, a)) IN Quiet /\ errs' = <<r(s), r(t)>>
Spec == Init /\ [][Next]_vars

Shown(p) == <<p.code, p.id, p.auth, p.attrs>> \o (IF Leak THEN <<Len(p.secret)>> ELSE <<>>)
TextsAgree == Len(ps) = Len(qs) /\ \A i \in 1..Len(ps) : Shown(ps[i]) = Shown(qs[i])
ErrorsAgree == errs[1] = errs[2]
(* Nor is the secret lost: it is still there for who may use it.            *)
SecretsKept == \A i \in 1..Len(ps) : ps[i].secret = s /\ qs[i].secret = t
=============================================================================
