--------------------------- MODULE TraceContext ---------------------------
(***************************************************************************)
(* Validation of operations done through the processor's context: each     *)
(* case gives the first state, the operations, and after each of them the  *)
(* trap (-1 for none), what was given back, processor and changed memory.  *)
(***************************************************************************)
EXTENDS TeldaContext, FiniteSets, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, k, c, m, bad, prev
vars == <<id, k, c, m, bad, prev>>

ObservedCpu(o) ==
  SetFlagWord([r |-> SubSeq(o, 1, 15), pc |-> o[16], z |-> FALSE, s |-> FALSE, cy |-> FALSE,
               v |-> FALSE, vm |-> FALSE, um |-> FALSE, tr |-> FALSE, rv |-> FALSE], o[17])
BytesOf(chunks) ==
  LET all == ConcatAll([i \in 1..Len(chunks) |->
               [j \in 1..Len(chunks[i][2]) |-> <<chunks[i][1] + j - 1, chunks[i][2][j]>>]])
  IN FoldLeft(LAMBDA f, p: (p[1] :> p[2]) @@ f, <<>>, all)
ChangedCells(m1, m2) ==
  {<<a, RamByte(m2, a)>> : a \in {b \in DOMAIN m2.b : RamByte(m2, b) # RamByte(m1, b)}}
ObservedCells(w) == {<<w[i][1], w[i][2]>> : i \in 1..Len(w)}
Diff(what, want, got) == IF want = got THEN <<>> ELSE <<<<what, "expected", want, "observed", got>>>>
Gives(op, x) == x.t = NoTrap /\ op[1] \in Giving

Disagreement(op, x, o) ==
  LET oc == ObservedCpu(o.c)
  IN Diff("trap", x.t, o.o) \o (IF Gives(op, x) THEN Diff("value", x.val, o.v) ELSE <<>>)
     \o Diff("registers", x.c.r, oc.r) \o Diff("pc", x.c.pc, oc.pc)
     \o Diff("flags", FlagWord(x.c), FlagWord(oc)) \o Diff("memory", ChangedCells(m, x.m), ObservedCells(o.w))

Init ==
  \E i \in 1..Len(Cases) :
    /\ id = i /\ k = 0 /\ bad = <<>>
    /\ c = ObservedCpu(Cases[i].c)
    /\ m = NewMem("flat", BytesOf(Cases[i].mem), <<>>, <<>>)
    /\ prev = [c |-> c, m |-> m]
Step ==
  /\ bad = <<>>
  /\ k < Len(Cases[id].st)
  /\ LET op == Cases[id].ops[k + 1]
         \* the recording leaves these out in user mode
         x == IF op[1] \in {"save", "restore"} /\ c.um THEN Ctx(c, m) ELSE Through(Ctx(c, m), op)
     IN /\ bad' = Disagreement(op, x, Cases[id].st[k + 1])
        /\ c' = x.c
        /\ m' = x.m
        /\ prev' = [c |-> c, m |-> m]
        /\ k' = k + 1
        /\ id' = id
Spec == Init /\ [][Step]_vars

Conforms == bad = <<>> \/ (PrintT(<<"MISMATCH", Cases[id].id, k, bad>>) /\ FALSE)

(* on the specification: what is not for users stays as it is for them, only *)
(* what is restored changes the flags, reading changes no memory             *)
Op == Cases[id].ops[k]
Kept == k > 0 =>
  /\ prev.c.um => c.r[RP] = prev.c.r[RP] /\ c.r[RH] = prev.c.r[RH]
  /\ Op[1] # "restore" => FlagWord(c) = FlagWord(prev.c)
  /\ Op[1] \in Giving \cup {"setw", "setb", "restore"} => ChangedCells(prev.m, m) = {}
  /\ Op[1] \in {"read", "readw", "write", "writew", "pread", "pwrite", "getw", "getb"} => c = prev.c
  /\ Op[1] = "pwrite" => Cardinality(ChangedCells(prev.m, m)) <= 1
  /\ Op[1] \notin {"fetch", "restore"} => c.pc = prev.c.pc
=============================================================================
