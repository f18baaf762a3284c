------------------------------ MODULE TraceSame ------------------------------
(***************************************************************************)
(* Validation that what the tools make is a function of what they are      *)
(* given: every run of a case has the same inputs and options, only the    *)
(* circumstances differ, and each is [how, status, out, made]: its status, *)
(* what it printed and the files it left.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, seen
vars == <<id, seen>>
Result(x) == <<x.status, x.out, x.made>>
Init == id \in 1..Len(Cases) /\ seen = 1
Next == seen < Len(Cases[id].runs) /\ seen' = seen + 1 /\ id' = id
Spec == Init /\ [][Next]_vars
FirstDiff(a, b) ==
  IF a.status # b.status THEN <<"status", a.status, b.status>>
  ELSE IF a.out # b.out THEN <<"printed", a.out, b.out>>
  ELSE <<"files", [k \in DOMAIN a.made |-> IF k \in DOMAIN b.made /\ a.made[k] = b.made[k] THEN <<>> ELSE a.made[k]], b.made>>
Function ==
  LET rs == Cases[id].runs IN
  Result(rs[seen]) = Result(rs[1])
    \/ (PrintT(<<"MISMATCH", Cases[id].id, rs[1].how, rs[seen].how, FirstDiff(rs[1], rs[seen])>>) /\ FALSE)
=============================================================================
