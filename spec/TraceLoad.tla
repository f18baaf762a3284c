----------------------------- MODULE TraceLoad -----------------------------
(* Validation of recorded loads against TeldaLoad. *)
EXTENDS TeldaLoad, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, done
vars == <<id, done>>

ObservedCpu(o) ==
  SetFlagWord([r |-> SubSeq(o, 1, 15), pc |-> o[16], z |-> FALSE, s |-> FALSE, cy |-> FALSE,
               v |-> FALSE, vm |-> FALSE, um |-> FALSE, tr |-> FALSE, rv |-> FALSE], o[17])

(* memory as frames: address -> 128 bytes; TeldaMem's byte map built lazily from it *)
FrameMap(chunks) == [a \in {chunks[i][1] : i \in 1..Len(chunks)} |->
                       chunks[CHOOSE i \in 1..Len(chunks) : chunks[i][1] = a][2]]
BytesOf(chunks) ==
  LET fm == FrameMap(chunks)
  IN [a \in UNION {f..(f + 127) : f \in DOMAIN fm} |-> fm[128 * (a \div 128)][1 + (a % 128)]]

Init == id \in 1..Len(Cases) /\ done = FALSE
Check == ~done /\ done' = TRUE /\ id' = id
Spec == Init /\ [][Check]_vars

CaseOK(cs) ==
  IF cs.ok = 0 THEN ~Loadable(cs.obj) \/ (PrintT(<<"MISMATCH", cs.id, "loading aborted">>) /\ FALSE)
  ELSE LET f == LoadFault(cs.obj, ObservedCpu(cs.c), NewMem("lazy", BytesOf(cs.mem), <<>>, <<>>))
       IN f = <<>> \/ (PrintT(<<"MISMATCH", cs.id, f>>) /\ FALSE)
Conforms == done => CaseOK(Cases[id])
=============================================================================
