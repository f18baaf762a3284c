------------------------------- MODULE MCDis -------------------------------
(***************************************************************************)
(* The disassembly against the two other readings of the same bytes: the   *)
(* processor, which must end up where the disassembly says the next        *)
(* instruction is (or go where it says), and the assembler, which must     *)
(* make the same bytes of it again.  All opcodes and first operand bytes,  *)
(* the others from a small set.                                            *)
(***************************************************************************)
EXTENDS TeldaDis
CONSTANTS Seconds, Thirds
A == INSTANCE TeldaAsm

VARIABLES bytes
vars == <<bytes>>
At == 512
Init == bytes \in {<<op, a, b, b2>> : op \in 0..255, a \in 0..255, b \in Seconds, b2 \in Thirds}
Spec == Init /\ [][UNCHANGED vars]_vars

Flat == NewMem("flat", [p \in At..(At + 3) |-> bytes[p - At + 1]], <<>>, <<>>)
State == [r |-> <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 1000, 12, 13, 0, 0>>, pc |-> At, z |-> FALSE, s |-> FALSE, cy |-> FALSE,
          v |-> FALSE, vm |-> FALSE, um |-> FALSE, tr |-> TRUE, rv |-> FALSE]
D == DisAt(State, Flat)
X == Attempt(State, Flat)
Jumps == D.mn \in CondJumps \cup {"jmp", "call", "ret", "reth"}
AsExecuted ==
  D.known =>
    /\ D.mn = "no such ldi" \/ Spare(D.b[1], Tail(D.b)) # 0 => X.t = TInvalid
    /\ D.mn # "no such ldi" /\ Spare(D.b[1], Tail(D.b)) = 0 =>
         /\ X.t = NoTrap \/ D.mn \in {"null", "halt", "syscall", "div"}
         /\ Jumps \/ X.c.pc = D.next
         /\ Jumps /\ ~D.ends => X.c.pc \in {D.next, D.ops[1][2]}
    /\ D.next = At + Len(D.b)
Unknown == ~D.known => X.t = TInvalid \/ D.b[1] \in {16, 17, 18, 19, 20}
Again(o) ==
  CASE o[1] = "B" -> [k |-> "B", v |-> o[2], name |-> <<>>]
    [] o[1] = "W" -> [k |-> "W", v |-> o[2], name |-> <<>>]
    [] o[1] = "8" -> [k |-> "byte", v |-> o[2], name |-> <<>>]
    [] o[1] = "16" -> [k |-> "wide", v |-> o[2], name |-> <<>>]
Reassembles ==
  D.known /\ D.mn # "no such ldi" /\ Spare(D.b[1], Tail(D.b)) = 0 =>
    LET c == A!InsCode(D.mn, [i \in 1..Len(D.ops) |-> Again(D.ops[i])])
    IN c.ok /\ (c.b = D.b \/ (D.mn = "jmp" /\ D.ops[1][1] = "W" /\ SubSeq(c.b, 1, 2) = SubSeq(D.b, 1, 2)))
=============================================================================
