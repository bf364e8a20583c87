------------------------------ MODULE TraceGen ------------------------------
(* Validates recorded runs of the real code generator: a run succeeds       *)
(* exactly if all its dictionaries are valid (DictFormat), and then what    *)
(* the dictionaries declare is what the modules are tested for.             *)
EXTENDS DictFormat, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES si, l
vars == <<si, l>>
B(s) == HexBytes(s)
LinesOf(f) == [i \in 1..Len(f.lines) |-> B(f.lines[i])]
AttrsMatch(f) == LET d == Declared(LinesOf(f), "attr") IN
  Len(d) = Len(f.attrs) /\ \A i \in 1..Len(d) : d[i].name = B(f.attrs[i].name) /\ d[i].num = f.attrs[i].num /\ d[i].kind = f.attrs[i].kind /\ d[i].len = f.attrs[i].len
ValuesMatch(f) == LET d == Declared(LinesOf(f), "value") IN
  Len(d) = Len(f.values) /\ \A i \in 1..Len(d) : d[i].attr = B(f.values[i].attr) /\ d[i].name = B(f.values[i].name) /\ d[i].n = B(f.values[i].n)
Verdict(ev) ==
  LET good == \A i \in 1..Len(ev.files) : Valid(LinesOf(ev.files[i])) IN
  IF ev.intent = "good" /\ ~good THEN {"driver"}
  ELSE IF good /\ ev.intent = "good" /\ ~\A i \in 1..Len(ev.files) : AttrsMatch(ev.files[i]) /\ ValuesMatch(ev.files[i]) THEN {"driver"}
  ELSE IF good /\ ev.exit # "ok" THEN {"refused"}
  ELSE IF ~good /\ ev.exit = "ok" THEN {"accepted"}
  ELSE {}
Init == si \in 1..Len(Runs) /\ l = 1
Next == /\ l <= Len(Runs[si].ev)
        /\ LET w == Verdict(Runs[si].ev[l]) IN
           /\ IF w = {} THEN TRUE ELSE PrintT(<<"REJECTED", si, l, w>>)
           /\ w = {}
        /\ l' = l + 1 /\ UNCHANGED si
Spec == Init /\ [][Next]_vars
=============================================================================
