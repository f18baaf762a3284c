------------------------------ MODULE TraceCpu ------------------------------
(***************************************************************************)
(* Trace validation of single processor steps.  Every recorded case gives  *)
(* an initial state (registers, memory) and what was observed after each   *)
(* executed instruction; the behaviour of TeldaCpu from the same initial   *)
(* state must agree with every observation.                                *)
(***************************************************************************)
EXTENDS TeldaCpu, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES id,     \* which case
          k,      \* number of steps taken
          cpu, mem,
          bad     \* first disagreement, <<>> if none so far

vars == <<id, k, cpu, mem, bad>>

ObservedCpu(o) ==
  SetFlagWord([r |-> SubSeq(o, 1, 15), pc |-> o[16], z |-> FALSE, s |-> FALSE, cy |-> FALSE,
               v |-> FALSE, vm |-> FALSE, um |-> FALSE, tr |-> FALSE, rv |-> FALSE], o[17])

BytesOf(chunks) ==
  LET all == ConcatAll([i \in 1..Len(chunks) |->
               [j \in 1..Len(chunks[i][2]) |-> <<chunks[i][1] + j - 1, chunks[i][2][j]>>]])
  IN FoldLeft(LAMBDA f, p: (p[1] :> p[2]) @@ f, <<>>, all)

(* memory cells that differ between two model memories, as observed pairs *)
ChangedCells(m1, m2) ==
  {<<a, RamByte(m2, a)>> : a \in {b \in DOMAIN m2.b : RamByte(m2, b) # RamByte(m1, b)}}
ObservedCells(w) == {<<w[i][1], w[i][2]>> : i \in 1..Len(w)}

Views(c) == <<[i \in 1..16 |-> GetB(c, i - 1)],
              [i \in 1..16 |-> IF Guarded(c, i - 1) THEN -1 ELSE GetW(c, i - 1)]>>

Disagreement(x, c, m, o) ==
  LET oc == ObservedCpu(o.c)
      wantw == ChangedCells(m, x.m)
      p1 == IF x.t # o.o THEN <<<<"outcome", "expected", x.t, "observed", o.o>>>> ELSE <<>>
      p2 == IF x.c.r # oc.r
            THEN <<<<"registers", "expected", x.c.r, "observed", oc.r>>>> ELSE <<>>
      p3 == IF x.c.pc # oc.pc THEN <<<<"pc", "expected", x.c.pc, "observed", oc.pc>>>> ELSE <<>>
      p4 == IF FlagWord(x.c) # FlagWord(oc)
            THEN <<<<"flags", "expected", FlagWord(x.c), "observed", FlagWord(oc)>>>> ELSE <<>>
      p5 == IF wantw # ObservedCells(o.w)
            THEN <<<<"memory", "expected", wantw, "observed", ObservedCells(o.w)>>>> ELSE <<>>
      p6 == IF "vb" \in DOMAIN o /\ Views(x.c) # <<o.vb, o.vw>>
            THEN <<<<"views", "expected", Views(x.c), "observed", <<o.vb, o.vw>>>>>> ELSE <<>>
      newio == SubSeq(x.m.io, Len(m.io) + 1, Len(x.m.io))
      p7 == IF "io" \in DOMAIN o /\ newio # o.io
            THEN <<<<"ports", "expected", newio, "observed", o.io>>>> ELSE <<>>
  IN p1 \o p2 \o p3 \o p4 \o p5 \o p6 \o p7

Init ==
  \E i \in 1..Len(Cases) :
    /\ id = i
    /\ k = 0
    /\ cpu = ObservedCpu(Cases[i].c)
    /\ mem = IF "k" \in DOMAIN Cases[i]
             THEN NewMem(Cases[i].k, BytesOf(Cases[i].mem), Cases[i].rom, Cases[i].in)
             ELSE NewMem("flat", BytesOf(Cases[i].mem), <<>>, <<>>)
    /\ bad = <<>>

Step ==
  /\ bad = <<>>
  /\ k < Len(Cases[id].st)
  /\ LET o == Cases[id].st[k + 1]
         x == CpuStep(cpu, mem)
     IN /\ bad' = Disagreement(x, cpu, mem, o)
        /\ cpu' = x.c
        /\ mem' = x.m
        /\ k' = k + 1
        /\ id' = id

Spec == Init /\ [][Step]_vars

Conforms ==
  \/ bad = <<>>
  \/ PrintT(<<"MISMATCH", Cases[id].id, k, bad>>) /\ FALSE

TypeOK == CpuTypeOK(cpu)
=============================================================================
