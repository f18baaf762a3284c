------------------------------ MODULE TraceMap ------------------------------
(***************************************************************************)
(* Validation of listings of the memory map.  A case is either a machine   *)
(* state and what was listed in it (obj = <<>>), or an object whose        *)
(* program lists the map several times, and what the tool wrote: before,   *)
(* the lists, after.                                                       *)
(***************************************************************************)
EXTENDS TeldaMap, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, done
vars == <<id, done>>
Init == id \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ id' = id
Spec == Init /\ [][Next]_vars

ObservedCpu(o) ==
  SetFlagWord([r |-> SubSeq(o, 1, 15), pc |-> o[16], z |-> FALSE, s |-> FALSE, cy |-> FALSE,
               v |-> FALSE, vm |-> FALSE, um |-> FALSE, tr |-> FALSE, rv |-> FALSE], o[17])
BytesOf(chunks) ==
  LET all == ConcatAll([i \in 1..Len(chunks) |->
               [j \in 1..Len(chunks[i][2]) |-> <<chunks[i][1] + j - 1, chunks[i][2][j]>>]])
  IN FoldLeft(LAMBDA f, p: (p[1] :> p[2]) @@ f, <<>>, all)

Report(what) == PrintT(<<"MISMATCH", Cases[id].id, what>>) /\ FALSE
State == Cases[id].what = "state"
TheCpu == ObservedCpu(Cases[id].c)
TheMem == NewMem("flat", BytesOf(Cases[id].mem), <<>>, <<>>)
Lists ==
  done /\ State =>
    LET o == Cases[id]
        want == Listing(TheCpu, TheMem)
    IN IF o.t # -1 THEN Report(<<"outcome", o.t>>)
       ELSE IF o.kept # 1 THEN Report(<<"changed something">>)
       ELSE o.lines = want \/ Report(<<"listed", o.lines, "expected", want>>)
Truth == done /\ State => SaysTheTruth(TheCpu, TheMem) \/ Report(<<"the specification lists something else than what is granted">>)
Shows ==
  done /\ ~State =>
    LET o == Cases[id]
    IN IF o.status # 0 THEN Report(<<"status", o.status, o.err>>)
       ELSE IF o.text # o.expect THEN Report(<<"written", o.text, "expected", o.expect>>)
       ELSE \A i \in 1..Len(o.lists) : (ShowsObject(o.obj, o.lists[i]) /\ o.lists[i] = o.lists[1])
              \/ Report(<<"listed", o.lists[i], "which is not the program's address space">>)
=============================================================================
