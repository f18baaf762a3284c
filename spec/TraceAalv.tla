---------------------------- MODULE TraceAalv ----------------------------
(***************************************************************************)
(* Validation of containers written and read with sections of one's own.   *)
(* A case gives the containers <<gap, sections>> asked for, whether each   *)
(* section was accepted, the bytes that came of them, and the operations   *)
(* of a reader with what each gave.                                        *)
(***************************************************************************)
EXTENDS TeldaAalv, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, k, s, bad
vars == <<id, k, s, bad>>
O == Cases[id]

(* what was written *)
Accepted(c) == \A i \in 1..Len(c.cs) : \A j \in 1..Len(c.cs[i][2]) : SectionFits(c.cs[i][2][j])
Writing(c) ==
  LET want == [i \in 1..Len(c.cs) |-> [j \in 1..Len(c.cs[i][2]) |-> IF SectionFits(c.cs[i][2][j]) THEN 1 ELSE 0]]
  IN IF c.acc # want THEN <<<<"accepted", "expected", want, "observed", c.acc>>>>
     ELSE IF Accepted(c) /\ c.b # Stream(c.cs, c.tail) THEN <<<<"bytes written">>>>
     ELSE <<>>

Init == /\ id \in 1..Len(Cases) /\ k = 0 /\ s = NewReader /\ bad = Writing(Cases[id])

Want(op, n) ==
  CASE op[1] = "open" -> IF n.ok THEN <<"ok", n.off>> ELSE <<"err">>
    [] op[1] = "take" -> Taken(s, op[2], op[3])
    [] op[1] = "rest" -> <<"ok", [i \in 1..Len(s.secs) |-> s.secs[i][1]]>>
    [] op[1] = "leave" -> <<"ok", s.end>>
Step ==
  /\ bad = <<>>
  /\ k < Len(O.res)
  /\ LET op == O.ops[k + 1]
         n == CASE op[1] = "open" -> Open(O.b, s)
                [] op[1] = "take" -> Take(s, op[2])
                [] op[1] = "rest" -> s
                [] op[1] = "leave" -> Leave(s)
     IN /\ bad' = IF Want(op, n) = O.res[k + 1] THEN <<>>
                  ELSE <<<<op, "expected", Want(op, n), "observed", O.res[k + 1]>>>>
        /\ s' = n
        /\ k' = k + 1
        /\ id' = id
Spec == Init /\ [][Step]_vars
Conforms == bad = <<>> \/ (PrintT(<<"MISMATCH", O.id, k, bad>>) /\ FALSE)

(* on the specification: what is written is what is read, container after container *)
Opened == Cardinality({j \in 1..k : O.ops[j][1] = "open"})
BackAgain ==
  k > 0 /\ O.ops[k][1] = "open" /\ Accepted(O) /\ O.plain = 1 =>
    s.ok /\ s.secs = O.cs[Opened][2]
==========================================================================
