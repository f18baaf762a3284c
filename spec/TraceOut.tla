------------------------------ MODULE TraceOut ------------------------------
(***************************************************************************)
(* Validation of tool runs with an output that may fail, against what      *)
(* TeldaWrite guarantees: full is the size of the complete output, limit   *)
(* how much could be written (-1: no limit), same whether the output is    *)
(* exactly the complete one; bytes, if there, is the complete output, an   *)
(* object or, if it is made of files, an archive, and nothing after it.    *)
(***************************************************************************)
EXTENDS TeldaObj, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, done
Init == id \in 1..Len(Cases) /\ done = FALSE
Spec == Init /\ [][~done /\ done' = TRUE /\ id' = id]_<<id, done>>

WholeOutput(cs) ==
  IF cs.files # <<>> THEN cs.bytes = EncodeArchive(cs.files)
  ELSE LET at == FindMagic(cs.bytes, 1)
           s == IF at = 0 THEN Error ELSE ReadSections(cs.bytes, at + 8, <<>>)
       IN s.ok /\ s.end = Len(cs.bytes) + 1
Fault(cs) ==
  IF cs.status = 0 /\ cs.same = 0 THEN <<"success reported for an incomplete output", cs>>
  ELSE IF cs.status # 0 /\ (cs.limit = -1 \/ cs.limit > cs.full) /\ cs.reachable = 1
       THEN <<"failure reported though everything could be written", cs>>
  ELSE IF cs.reachable = 0 /\ cs.status = 0 THEN <<"success reported for an output that cannot be", cs>>
  ELSE IF cs.status \notin 0..255 THEN <<"the tool was ended by a signal", cs>>
  ELSE IF "bytes" \in DOMAIN cs /\ ~WholeOutput(cs) THEN <<"the output is not just what was to be written">>
  ELSE <<>>
ReportsTrue ==
  done => LET f == Fault(Cases[id]) IN f = <<>> \/ (PrintT(<<"MISMATCH", Cases[id].id, f>>) /\ FALSE)
=============================================================================
