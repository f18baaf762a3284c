---------------------------- MODULE TraceKernel ----------------------------
(***************************************************************************)
(* Validation of recorded runs of loaded programs: the machine as it was   *)
(* after loading, then one observation per step.                           *)
(***************************************************************************)
EXTENDS TeldaKernel, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, k, cpu, mem, handler, bad
vars == <<id, k, cpu, mem, handler, bad>>

ObservedCpu(o) ==
  SetFlagWord([r |-> SubSeq(o, 1, 15), pc |-> o[16], z |-> FALSE, s |-> FALSE, cy |-> FALSE,
               v |-> FALSE, vm |-> FALSE, um |-> FALSE, tr |-> FALSE, rv |-> FALSE], o[17])
FrameMap(chunks) == [a \in {chunks[i][1] : i \in 1..Len(chunks)} |->
                       chunks[CHOOSE i \in 1..Len(chunks) : chunks[i][1] = a][2]]
BytesOf(chunks) ==
  LET fm == FrameMap(chunks)
  IN [a \in UNION {f..(f + 127) : f \in DOMAIN fm} |-> fm[128 * (a \div 128)][1 + (a % 128)]]
ChangedCells(m1, m2) ==
  {<<a, RamByte(m2, a)>> : a \in {b \in DOMAIN m2.b : RamByte(m2, b) # RamByte(m1, b)}}
ObservedCells(w) == {<<w[i][1], w[i][2]>> : i \in 1..Len(w)}

Diff(what, want, got) == IF want = got THEN <<>> ELSE <<<<what, "expected", want, "observed", got>>>>

Disagreement(x, m, o) ==
  LET oc == ObservedCpu(o.c)
      newio == SubSeq(x.m.io, Len(m.io) + 1, Len(x.m.io))
  IN Diff("outcome", x.t, o.o) \o Diff("registers", x.c.r, oc.r) \o Diff("pc", x.c.pc, oc.pc)
     \* what flags a stopped machine shows is of no consequence
     \o (IF x.t = NoTrap THEN Diff("flags", FlagWord(x.c), FlagWord(oc)) ELSE <<>>)
     \o Diff("memory", ChangedCells(m, x.m), ObservedCells(o.w)) \o Diff("ports", newio, o.io)

Init ==
  \E i \in 1..Len(Cases) :
    /\ id = i
    /\ k = 0
    /\ cpu = ObservedCpu(Cases[i].c)
    /\ mem = NewMem("lazy", BytesOf(Cases[i].mem), <<>>, Cases[i].in)
    /\ handler = 0
    /\ bad = IF Cases[i].ok = 1 THEN <<>> ELSE <<"loading aborted">>
Step ==
  /\ bad = <<>>
  /\ k < Len(Cases[id].st)
  /\ LET o == Cases[id].st[k + 1]
         x == KernelStep(cpu, mem, handler)
     IN /\ bad' = Disagreement(x, mem, o)
        /\ cpu' = x.c
        /\ mem' = x.m
        /\ handler' = x.h
        /\ k' = k + 1
        /\ id' = id
Spec == Init /\ [][Step]_vars

Conforms == bad = <<>> \/ (PrintT(<<"MISMATCH", Cases[id].id, k, bad>>) /\ FALSE)
Stopped == k = Len(Cases[id].st) /\ k > 0 /\ Cases[id].st[k].o # NoTrap
StaysInUserMode == bad = <<>> /\ ~Stopped => InUserMode(cpu)
=============================================================================
