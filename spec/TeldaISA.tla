------------------------------ MODULE TeldaISA ------------------------------
(***************************************************************************)
(* The instruction set: one table shared by the processor, the assembler,  *)
(* the disassembler and the debugger specifications.                       *)
(*                                                                         *)
(* Operand shapes (see Operands): which registers and immediates follow    *)
(* the opcode byte in the encoding.                                        *)
(*   n       nothing                                                       *)
(*   B / W   one byte / wide register, low nibble zero                     *)
(*   i8, i16 immediate only                                                *)
(*   Bi8     byte register, zero nibble, byte immediate                    *)
(*   ldiw    wide register, variant nibble, wide immediate                 *)
(*   BWi, WBi, WWi   two registers then a wide immediate                   *)
(*   BBB, WWW, WWB, BWW   three registers and a zero nibble                *)
(*   BBBB, WWWW  four registers                                            *)
(*   pstore, pload  the privileged physical accesses                       *)
(***************************************************************************)
EXTENDS TeldaBits, TLC

OpTable ==
  ( 0 :> [mn |-> "null", sh |-> "n"])   @@ (10 :> [mn |-> "halt", sh |-> "n"]) @@
  (11 :> [mn |-> "ctf",  sh |-> "n"])   @@ (12 :> [mn |-> "syscall", sh |-> "n"]) @@
  (13 :> [mn |-> "reth", sh |-> "n"])   @@ (16 :> [mn |-> "usr",  sh |-> "n"]) @@
  (17 :> [mn |-> "vmon", sh |-> "n"])   @@ (18 :> [mn |-> "vmoff", sh |-> "n"]) @@
  (19 :> [mn |-> "pstore", sh |-> "pstore"]) @@ (20 :> [mn |-> "pload", sh |-> "pload"]) @@
  (32 :> [mn |-> "nop",  sh |-> "n"])   @@
  (33 :> [mn |-> "push", sh |-> "B"])   @@ (34 :> [mn |-> "push", sh |-> "W"]) @@
  (35 :> [mn |-> "pop",  sh |-> "B"])   @@ (36 :> [mn |-> "pop",  sh |-> "W"]) @@
  (37 :> [mn |-> "call", sh |-> "i16"]) @@ (38 :> [mn |-> "ret",  sh |-> "i8"]) @@
  (39 :> [mn |-> "store", sh |-> "WBi"]) @@ (40 :> [mn |-> "store", sh |-> "WWi"]) @@
  (41 :> [mn |-> "store", sh |-> "WWB"]) @@ (42 :> [mn |-> "store", sh |-> "WWW"]) @@
  (43 :> [mn |-> "load", sh |-> "BWi"]) @@ (44 :> [mn |-> "load", sh |-> "WWi"]) @@
  (45 :> [mn |-> "load", sh |-> "BWW"]) @@ (46 :> [mn |-> "load", sh |-> "WWW"]) @@
  (47 :> [mn |-> "jez", sh |-> "i16"])  @@ (48 :> [mn |-> "jlt", sh |-> "i16"]) @@
  (49 :> [mn |-> "jle", sh |-> "i16"])  @@ (50 :> [mn |-> "jgt", sh |-> "i16"]) @@
  (51 :> [mn |-> "jge", sh |-> "i16"])  @@ (52 :> [mn |-> "jnz", sh |-> "i16"]) @@
  (53 :> [mn |-> "jo",  sh |-> "i16"])  @@ (54 :> [mn |-> "jno", sh |-> "i16"]) @@
  (55 :> [mn |-> "ja",  sh |-> "i16"])  @@ (56 :> [mn |-> "jae", sh |-> "i16"]) @@
  (57 :> [mn |-> "jb",  sh |-> "i16"])  @@ (58 :> [mn |-> "jbe", sh |-> "i16"]) @@
  (63 :> [mn |-> "ldi", sh |-> "Bi8"])  @@ (64 :> [mn |-> "ldi", sh |-> "ldiw"]) @@
  (65 :> [mn |-> "add", sh |-> "BBB"])  @@ (66 :> [mn |-> "add", sh |-> "WWW"]) @@
  (67 :> [mn |-> "sub", sh |-> "BBB"])  @@ (68 :> [mn |-> "sub", sh |-> "WWW"]) @@
  (69 :> [mn |-> "and", sh |-> "BBB"])  @@ (70 :> [mn |-> "and", sh |-> "WWW"]) @@
  (71 :> [mn |-> "or",  sh |-> "BBB"])  @@ (72 :> [mn |-> "or",  sh |-> "WWW"]) @@
  (73 :> [mn |-> "xor", sh |-> "BBB"])  @@ (74 :> [mn |-> "xor", sh |-> "WWW"]) @@
  (75 :> [mn |-> "shl", sh |-> "BBB"])  @@ (76 :> [mn |-> "shl", sh |-> "WWW"]) @@
  (77 :> [mn |-> "asr", sh |-> "BBB"])  @@ (78 :> [mn |-> "asr", sh |-> "WWW"]) @@
  (79 :> [mn |-> "lsr", sh |-> "BBB"])  @@ (80 :> [mn |-> "lsr", sh |-> "WWW"]) @@
  (81 :> [mn |-> "div", sh |-> "BBBB"]) @@ (82 :> [mn |-> "div", sh |-> "WWWW"]) @@
  (83 :> [mn |-> "mul", sh |-> "BBBB"]) @@ (84 :> [mn |-> "mul", sh |-> "WWWW"])

Opcodes == DOMAIN OpTable
IsOp(op) == op \in Opcodes
Shape(op) == OpTable[op].sh
Mnem(op) == OpTable[op].mn

(* number of operand bytes after the opcode *)
OperandBytes(sh) ==
  CASE sh = "n" -> 0
    [] sh \in {"B", "W", "i8"} -> 1
    [] sh \in {"i16", "Bi8", "BBB", "WWW", "WWB", "BWW", "BBBB", "WWWW", "pstore", "pload"} -> 2
    [] sh \in {"ldiw", "WBi", "WWi", "BWi"} -> 3

(* trap numbers *)
TInvalid == 0
TSysCall == 5
TZeroDiv == 8
THalt == 10
TL1Fault == 14
TL2Fault == 15
TIllegalOp == 16
TIllegalRead == 17
TIllegalWrite == 18
TIllegalExecute == 19
TIllegalReth == 31
TrapNumbers == {0, 5, 8, 10, 14, 15, 16, 17, 18, 19, 31}

ByteRegNames == <<"r0b", "r1l", "r1h", "r2l", "r2h", "r3l", "r3h", "r4l", "r4h",
                  "r5l", "r5h", "r6b", "r7b", "r8b", "r9b", "r10b">>
WideRegNames == <<"r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10",
                  "rs", "rl", "rf", "rp", "rh">>
=============================================================================
