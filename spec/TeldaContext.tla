--------------------------- MODULE TeldaContext ---------------------------
(***************************************************************************)
(* What code outside the processor, such as an emulated kernel, does       *)
(* through the processor's context.  Each operation is what an instruction *)
(* doing the same would do in that state.  An operation is a sequence: its *)
(* name and its numbers.                                                   *)
(***************************************************************************)
EXTENDS TeldaCpu

(* Flag words have eight bits; some registers are not for users          *)
SaveAll(x, flags) ==
  LET start == Then(PushW(x, x.c.pc), LAMBDA y: PushW(y, flags % 256))
  IN FoldLeft(LAMBDA acc, n: Then(acc, LAMBDA y: Then(ReadW(y, n), LAMBDA z: PushW(z, z.val))),
              start, [n \in 1..15 |-> n])

(* the names of the operations that give something back *)
Giving == {"read", "readw", "pread", "popw", "popb", "fetch", "getw", "getb"}

Through(x, op) ==
  CASE op[1] = "read"   -> VRead(x, op[2])
    [] op[1] = "write"  -> VWrite(x, op[2], op[3])
    [] op[1] = "readw"  -> VReadW(x, op[2])
    [] op[1] = "writew" -> VWriteW(x, op[2], op[3])
    [] op[1] = "fetch"  -> Fetch(x)
    [] op[1] = "pread"  -> PhysRead(x, op[2])
    [] op[1] = "pwrite" -> PhysWrite(x, op[2], op[3])
    [] op[1] = "pushw"  -> PushW(x, op[2])
    [] op[1] = "pushb"  -> PushB(x, op[2])
    [] op[1] = "popw"   -> PopW(x)
    [] op[1] = "popb"   -> PopB(x)
    [] op[1] = "save"   -> SaveAll(x, op[2])
    [] op[1] = "restore" -> PopRegs(x)
    [] op[1] = "getw"   -> ReadW(x, op[2])
    [] op[1] = "setw"   -> WriteW(x, op[2], op[3])
    [] op[1] = "getb"   -> Give(x, GetB(x.c, op[2]))
    [] op[1] = "setb"   -> WriteB(x, op[2], op[3])
=============================================================================
