------------------------------ MODULE TeldaDis ------------------------------
(***************************************************************************)
(* Disassembly: what is to be shown of the instruction at the program      *)
(* counter.  It is fetched like an instruction that is executed, so it     *)
(* faults like one.                                                        *)
(*                                                                         *)
(* Operands: <<"B", n>> and <<"W", n>> registers, <<"8", v>> a byte,       *)
(* <<"16", v>> a wide that a label may stand for.                          *)
(***************************************************************************)
EXTENDS TeldaCpu

(* the disassembler does not know the privileged instructions *)
Shown == Opcodes \ {16, 17, 18, 19, 20}
DisMnemonics == {Mnem(op) : op \in Shown} \cup {"jmp"}
EndsBlock(mn) == mn \in {"null", "halt", "reth", "ret", "jmp"}
Nesting(mn) == CASE mn = "call" -> 1 [] mn = "ret" -> -1 [] OTHER -> 0

Regs(kind, bytes) ==
  [i \in 1..Len(kind) |-> <<SubSeq(kind, i, i), IF i % 2 = 1 THEN H4(bytes[(i + 1) \div 2]) ELSE L4(bytes[i \div 2])>>]
Imm(o, i) == <<"16", Wide(o[i], o[i + 1])>>
(* mnemonic and operands of opcode op with operand bytes o *)
Decoded(op, o) ==
  LET sh == Shape(op)
      ins(ops) == [mn |-> Mnem(op), ops |-> ops]
  IN CASE sh = "n" -> ins(<<>>)
       [] sh \in {"B", "W"} -> ins(Regs(sh, o))
       [] sh = "i8" -> ins(<<<<"8", o[1]>>>>)
       [] sh = "i16" -> ins(<<Imm(o, 1)>>)
       [] sh = "Bi8" -> ins(<<<<"B", H4(o[1])>>, <<"8", o[2]>>>>)
       [] sh = "ldiw" ->
            (IF L4(o[1]) = 0 THEN ins(<<<<"W", H4(o[1])>>, Imm(o, 2)>>)
             ELSE IF L4(o[1]) = 1 THEN [mn |-> "jmp", ops |-> IF H4(o[1]) = 0 THEN <<Imm(o, 2)>> ELSE <<<<"W", H4(o[1])>>>>]
             ELSE [mn |-> "no such ldi", ops |-> <<>>])
       [] sh = "WBi" -> ins(<<<<"W", H4(o[1])>>, Imm(o, 2), <<"B", L4(o[1])>>>>)
       [] sh = "WWi" /\ Mnem(op) = "store" -> ins(<<<<"W", H4(o[1])>>, Imm(o, 2), <<"W", L4(o[1])>>>>)
       [] sh = "WWi" -> ins(<<<<"W", H4(o[1])>>, <<"W", L4(o[1])>>, Imm(o, 2)>>)
       [] sh = "BWi" -> ins(<<<<"B", H4(o[1])>>, <<"W", L4(o[1])>>, Imm(o, 2)>>)
       [] sh \in {"BBB", "WWW", "WWB", "BWW", "BBBB", "WWWW"} -> ins(Regs(sh, o))

(* operand bytes that no instruction has: a non-zero nibble that is not used *)
Spare(op, o) ==
  CASE Shape(op) \in {"B", "W", "Bi8"} -> L4(o[1])
    [] Shape(op) \in {"BBB", "WWW", "WWB", "BWW"} -> L4(o[2])
    [] OTHER -> 0

(* what is at the program counter of c in memory m:
   t the trap of fetching it, b its bytes, next where the following one is;
   known: it is an instruction the disassembler has a name for *)
FetchOperands(x, sh) == FetchN(x, OperandBytes(sh))
DisAt(c, m) ==
  LET f == Fetch(Ctx(c, m))
      op == f.val
      more == FetchOperands(f, Shape(op))
      unknown == [t |-> NoTrap, known |-> FALSE, b |-> <<op>>, next |-> f.c.pc, mn |-> "", ops |-> <<>>, ends |-> TRUE, nest |-> 0]
  IN IF f.t # NoTrap THEN [t |-> f.t, known |-> FALSE]
     ELSE IF op \notin Shown THEN unknown
     ELSE IF more.t # NoTrap THEN [t |-> more.t, known |-> FALSE]
     ELSE LET d == Decoded(op, more.val)
          IN [t |-> NoTrap, known |-> TRUE, b |-> <<op>> \o more.val, next |-> more.c.pc,
              mn |-> d.mn, ops |-> d.ops, ends |-> EndsBlock(d.mn), nest |-> Nesting(d.mn)]

(* what an operand is shown as, given what labels there are (a function from addresses) *)
ShownAs(o, labels) ==
  CASE o[1] = "B" -> <<"name", ByteRegNames[o[2] + 1]>>
    [] o[1] = "W" -> <<"name", WideRegNames[o[2] + 1]>>
    [] o[1] = "16" /\ o[2] \in DOMAIN labels -> <<"name", labels[o[2]]>>
    [] OTHER -> <<"num", o[2]>>
=============================================================================
