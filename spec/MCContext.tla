---------------------------- MODULE MCContext ----------------------------
(***************************************************************************)
(* The stack that instructions and an emulated kernel share, through the   *)
(* processor's context: every course of up to MaxOps pushes, pops, saves,  *)
(* restores and changes of registers, from stacks anywhere, those that go  *)
(* around the ends of the address space among them, with page tables or    *)
(* without.  Beside the state, the bytes on the stack and what was saved   *)
(* are kept as lists: what is popped is what was pushed, and a context     *)
(* that is restored is the one that was saved.                             *)
(***************************************************************************)
EXTENDS TeldaContext, FiniteSets
CONSTANTS MaxOps, Wide1

VARIABLES x, st, saved, k
vars == <<x, st, saved, k>>

(* with page tables, every page used is mapped, to frames apart and upside down *)
Root == 36864
Table == 65536
Pages == {0, 1, 509, 510, 511, 62, 63, 64, 65}
EntryAt(a, frame, fl) ==
  (a :> fl) @@ ((a + 1) :> (frame % 256)) @@ ((a + 2) :> (frame \div 256) % 256) @@ ((a + 3) :> frame \div 65536)
L1s == {p \div 32 : p \in Pages}
Tables0 ==
  LET l1 == FoldSet(LAMBDA t, f: EntryAt(Root + 4 * t, Table + 128 * t, 47) @@ f, <<>>, L1s)
  IN FoldSet(LAMBDA p, f: EntryAt(Table + 128 * (p \div 32) + 4 * (p % 32), 262144 - 256 * p, 39) @@ f, l1, Pages)

Stacks == {0, 1, 2, 33, 34, 65535, 65534, 8320, 8321}
Tops == IF Wide1 THEN Stacks ELSE {1, 34, 65535, 8321}
Regs0(sp) == [i \in 1..15 |-> CASE i = 11 -> sp [] i = 14 -> Root [] OTHER -> 257 * i + 3]
Init == \E sp \in Tops, vm, um \in BOOLEAN :
  /\ ~vm => ~um
  /\ x = Ctx([r |-> Regs0(sp), pc |-> 4660, z |-> TRUE, s |-> FALSE, cy |-> TRUE,
              v |-> FALSE, vm |-> vm, um |-> um, tr |-> FALSE, rv |-> FALSE],
             NewMem("flat", IF vm THEN Tables0 ELSE <<>>, <<>>, <<>>))
  /\ st = <<>> /\ saved = <<>> /\ k = 0

Words == {258, 65280}
BaseOf == IF saved = <<>> THEN 0 ELSE saved[1].base
Do(op) == x' = Through(x, op) /\ k' = k + 1
Pushes == \/ \E w \in Words : Do(<<"pushw", w>>) /\ st' = <<Lo(w), Hi(w)>> \o st /\ UNCHANGED saved
          \/ \E b \in {7, 255} : Do(<<"pushb", b>>) /\ st' = <<b>> \o st /\ UNCHANGED saved
Pops == \/ /\ Len(st) >= BaseOf + 2 /\ Do(<<"popw">>) /\ st' = SubSeq(st, 3, Len(st)) /\ UNCHANGED saved
        \/ /\ Len(st) >= BaseOf + 1 /\ Do(<<"popb">>) /\ st' = Tail(st) /\ UNCHANGED saved
Sets == \/ \E n \in {0, 1, 10, 12, 15} : ~(x.c.um /\ n = RH) /\ Do(<<"setw", n, 48879>>) /\ UNCHANGED <<st, saved>>
        \/ \E n \in {1, 14} : Do(<<"setb", n, 170>>) /\ UNCHANGED <<st, saved>>
(* the bytes of a context are its own: only their number matters here *)
Saves == /\ ~x.c.um
         /\ Do(<<"save", FlagWord(x.c)>>)
         /\ st' = [i \in 1..34 |-> -1] \o st
         /\ saved' = <<[c |-> x.c, base |-> Len(st) + 34]>> \o saved
Restores == /\ saved # <<>> /\ Len(st) = BaseOf
            /\ Do(<<"restore">>) /\ st' = SubSeq(st, 35, Len(st)) /\ saved' = Tail(saved)
Next == k < MaxOps /\ x.t = NoTrap /\ (Pushes \/ Pops \/ Sets \/ Saves \/ Restores)
Spec == Init /\ [][Next]_vars

Never == x.t = NoTrap
(* the stack holds what was pushed: byte by byte, and two bytes as a word *)
Holds == \A i \in 0..(Len(st) - 1) :
           st[i + 1] # -1 => VRead([x EXCEPT !.t = NoTrap], M16(x.c.r[RS] + i)).val = st[i + 1]
Top == Len(st) >= 2 /\ st[1] # -1 /\ st[2] # -1 => PopW(x).val = Wide(st[1], st[2])
(* nothing but its own place is moved by pushing and popping *)
Moves == [][/\ x'.c.r[RS] = M16(x.c.r[RS] + Len(st) - Len(st'))
            /\ saved' = saved /\ st' # st => [x'.c EXCEPT !.r[RS] = 0] = [x.c EXCEPT !.r[RS] = 0]]_vars
Restored == [][saved # <<>> /\ saved' = Tail(saved) => x'.c = saved[1].c]_vars
(* what is saved stays restorable, whatever is put above it *)
Restorable == saved # <<>> /\ Len(st) = BaseOf => PopRegs(x).c = saved[1].c
Undisturbed == x.c.vm = FALSE \/ \A p \in Pages : Xlate(x, 128 * p, "R").val = 262144 - 256 * p
==========================================================================
