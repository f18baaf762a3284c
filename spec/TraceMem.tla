------------------------------ MODULE TraceMem ------------------------------
(***************************************************************************)
(* Validation of recorded reads and writes of the machine's memory against *)
(* the memory map of TeldaMem: the value of every read, and the sequence   *)
(* of port accesses.                                                       *)
(***************************************************************************)
EXTENDS TeldaMem, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES id, k, mem, bad
vars == <<id, k, mem, bad>>

(* boot images are given as length and two factors *)
Image(r) == IF r = <<>> THEN <<>>
            ELSE [i \in 1..r[1] |-> ((i - 1) * r[2] + ((i - 1) \div 256) * r[3] + 7) % 256]

Init == \E i \in 1..Len(Cases) :
          /\ id = i /\ k = 0 /\ bad = <<>>
          /\ mem = NewMem("lazy", <<>>, Image(Cases[i].rom), Cases[i].in)

(* port reads with no input left deliver 0, as the recorded ports do *)
Step ==
  /\ bad = <<>> /\ k < Len(Cases[id].ops)
  /\ LET op == Cases[id].ops[k + 1]
         rd == MemRead(mem, op[2])
         want == IF op[1] = 1 THEN -1 ELSE rd.v
         after == IF op[1] = 1 THEN MemWrite(mem, op[2], op[3]) ELSE rd.m
     IN /\ mem' = after
        /\ bad' = IF want # Cases[id].res[k + 1]
                  THEN <<"operation", op, "expected", want, "observed", Cases[id].res[k + 1]>>
                  ELSE IF k + 1 = Len(Cases[id].ops) /\ after.io # Cases[id].io
                  THEN <<"ports", "expected", after.io, "observed", Cases[id].io>>
                  ELSE <<>>
        /\ k' = k + 1
        /\ id' = id
Spec == Init /\ [][Step]_vars
Conforms == bad = <<>> \/ (PrintT(<<"MISMATCH", Cases[id].id, k, bad>>) /\ FALSE)
=============================================================================
