--------------------------- MODULE TraceMachine ---------------------------
(***************************************************************************)
(* Validation of machines with kernels of one's own: each case gives the   *)
(* first state, the kernels' acts, the operations, and what was observed   *)
(* after each: what it came to, processor, changed memory, who was asked.  *)
(***************************************************************************)
EXTENDS TeldaMachine, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Endless == -3
VARIABLES id, k, s, bad, steps
vars == <<id, k, s, bad, steps>>

ObservedCpu(o) ==
  SetFlagWord([r |-> SubSeq(o, 1, 15), pc |-> o[16], z |-> FALSE, s |-> FALSE, cy |-> FALSE,
               v |-> FALSE, vm |-> FALSE, um |-> FALSE, tr |-> FALSE, rv |-> FALSE], o[17])
BytesOf(chunks) ==
  LET all == ConcatAll([i \in 1..Len(chunks) |->
               [j \in 1..Len(chunks[i][2]) |-> <<chunks[i][1] + j - 1, chunks[i][2][j]>>]])
  IN FoldLeft(LAMBDA f, p: (p[1] :> p[2]) @@ f, <<>>, all)
ChangedCells(m1, m2) ==
  {<<a, RamByte(m2, a)>> : a \in {b \in DOMAIN m2.b : RamByte(m2, b) # RamByte(m1, b)}}
ObservedCells(w) == {<<w[i][1], w[i][2]>> : i \in 1..Len(w)}
ObservedAsk(a) == <<a[1], a[2], SubSeq(a[3], 1, 15), a[3][16], a[3][17]>>
Diff(what, want, got) == IF want = got THEN <<>> ELSE <<<<what, "expected", want, "observed", got>>>>

Disagreement(n, m, o) ==
  LET oc == ObservedCpu(o.c)
  IN Diff("outcome", n.t, o.o) \o Diff("registers", n.c.r, oc.r) \o Diff("pc", n.c.pc, oc.pc)
     \o Diff("flags", FlagWord(n.c), FlagWord(oc)) \o Diff("memory", ChangedCells(m, n.m), ObservedCells(o.w))
     \o Diff("the kernel was asked", n.asked, [i \in 1..Len(o.asks) |-> ObservedAsk(o.asks[i])])

Init ==
  \E i \in 1..Len(Cases) :
    /\ id = i
    /\ k = 0
    /\ s = NewMachine(ObservedCpu(Cases[i].c), NewMem("flat", BytesOf(Cases[i].mem), <<>>, <<>>), Cases[i].acts)
    /\ bad = <<>>
    /\ steps = s
Step ==
  /\ bad = <<>>
  /\ k < Len(Cases[id].st)
  /\ LET o == Cases[id].st[k + 1]
         \* a run that did not end in the time given to it ended after no fewer instructions
         endless == o.o = Endless
         n == Operate(s, Cases[id].ops[k + 1], IF endless THEN 15 ELSE 6001)
     IN /\ bad' = IF endless THEN Diff("outcome within 15 instructions", n.t, NoTrap) ELSE Disagreement(n, s.m, o)
        /\ s' = n
        /\ steps' = s
        /\ k' = k + 1
        /\ id' = id
Spec == Init /\ [][Step]_vars

Conforms == bad = <<>> \/ (PrintT(<<"MISMATCH", Cases[id].id, k, bad>>) /\ FALSE)

(* on the specification: acts are used up only by being asked, one each time, *)
(* and only the installed kernel is asked                                    *)
Op == Cases[id].ops[k]
Kept == k > 0 =>
  /\ \A j \in 1..Len(s.acts) :
       Len(steps.acts[j]) - Len(s.acts[j]) =
         (IF j # s.k THEN 0
          ELSE LET n == Len(s.asked) IN IF n < Len(steps.acts[j]) THEN n ELSE Len(steps.acts[j]))
  /\ \A i \in 1..Len(s.asked) : s.asked[i][1] = s.k
  /\ Op[1] = "run" /\ Cases[id].st[k].o # Endless => s.t # NoTrap
  \* no kernel is asked when nothing traps, and then the run ends with the trap itself
  /\ Op[1] # "install" /\ s.k = 0 => s.asked = <<>>
  /\ Op[1] = "step" => Len(s.asked) <= 1
=============================================================================
