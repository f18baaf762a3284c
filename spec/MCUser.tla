------------------------------- MODULE MCUser -------------------------------
(***************************************************************************)
(* Model checking of the processor and kernel specifications: an arbitrary *)
(* program in user mode.  Before each step an arbitrary instruction (from  *)
(* a grid covering every opcode) is put where the program counter points,  *)
(* so every program over that grid is explored, up to MaxSteps steps.      *)
(*                                                                         *)
(* The world: page 0x2000 code, 0x3000 data, 0x3080 read-only, 0xf080      *)
(* stack, all for users; 0x4000 without the user flag at level 2, 0x5000   *)
(* without it at level 1, the rest unmapped.  WithKernel says whether the  *)
(* emulated kernel takes the traps, or a handler at 0x6000 (supervisor)    *)
(* consisting of a handler return.                                         *)
(***************************************************************************)
EXTENDS TeldaKernel, FiniteSets
CONSTANTS WithKernel, MaxSteps, Grid

VARIABLES c, m, h, k, prev, stopped
vars == <<c, m, h, k, prev, stopped>>

Root == 36864
(* page -> <<flags at level 2>>; frames are 0x20000 + 128 * page *)
UserAll == 47     \* present r w x user, not dirty
PageFlags == (64 :> UserAll) @@ (96 :> 39) @@ (97 :> 35) @@ (481 :> 39) @@ (128 :> 15) @@ (160 :> 47) @@ (192 :> 15)
L1Flags(t) == IF t = 5 THEN 15 ELSE 47
L1s == {p \div 32 : p \in DOMAIN PageFlags}
Table2(t) == 65536 + 128 * t
FrameOf(p) == 131072 + 128 * p
EntryAt(a, frame, fl) ==
  (a :> fl) @@ ((a + 1) :> (frame % 256)) @@ ((a + 2) :> (frame \div 256) % 256) @@ ((a + 3) :> frame \div 65536)
Tables0 ==
  LET l1 == FoldSet(LAMBDA t, f: EntryAt(Root + 4 * t, Table2(t), L1Flags(t)) @@ f, <<>>, L1s)
  IN FoldSet(LAMBDA p, f: EntryAt(Table2(p \div 32) + 4 * (p % 32), FrameOf(p), PageFlags[p]) @@ f,
             l1, DOMAIN PageFlags)
Handler == 24576
World0 == (FrameOf(192) :> 13) @@ (FrameOf(128) :> 77) @@ (FrameOf(160) :> 78) @@ (FrameOf(96) :> 79) @@ Tables0

Regs0 == { [i \in 1..15 |->
              CASE i = 1 -> r1 [] i = 2 -> 12288 [] i = 3 -> 16384 [] i = 4 -> 20480 [] i = 5 -> Root
                [] i = 11 -> sp [] i = 14 -> Root [] i = 15 -> IF WithKernel THEN 0 ELSE Handler
                [] OTHER -> 257 * i] : r1 \in {3, 4, 15}, sp \in {61584, 12416, 16400} }

Cpu0(r, fl) ==
  SetFlagWord([r |-> r, pc |-> 8192, z |-> FALSE, s |-> FALSE, cy |-> FALSE, v |-> FALSE, vm |-> FALSE,
               um |-> FALSE, tr |-> FALSE, rv |-> FALSE], fl)

AllOps == {op \in 0..255 : IsOp(op)} \cup {200}
O1 == IF Grid = "small" THEN {18, 30} ELSE {0, 18, 30, 241, 45, 188, 97}
O23 == IF Grid = "small" THEN {<<0, 48>>}
       ELSE {<<0, 48>>, <<16, 64>>, <<224, 80>>, <<48, 0>>, <<32, 240>>, <<127, 48>>}
Instrs == {<<op, a, p[1], p[2]>> : op \in AllOps, a \in O1, p \in O23}

CodeFrame(pc) == FrameOf(pc \div 128)
Put(mm, pc, code) ==
  [mm EXCEPT !.b = (CodeFrame(pc) + (pc % 128) :> code[1]) @@ (CodeFrame(pc) + (pc % 128) + 1 :> code[2])
                @@ (CodeFrame(pc) + (pc % 128) + 2 :> code[3]) @@ (CodeFrame(pc) + (pc % 128) + 3 :> code[4]) @@ @]
AtCode(pc) == pc \div 128 = 64 /\ pc % 128 < 124

Init ==
  /\ \E r \in Regs0, fl \in {9, 25, 217} : c = Cpu0(r, fl)
  /\ m = NewMem(IF WithKernel THEN "lazy" ELSE "flat", World0, <<>>, <<65>>)
  /\ h \in (IF WithKernel THEN {0, 8200} ELSE {0})
  /\ k = 0
  /\ prev = <<>>
  /\ stopped = FALSE

(* user code runs: an arbitrary instruction *)
UserStep ==
  /\ ~stopped /\ k < MaxSteps /\ c.um
  /\ \E code \in (IF AtCode(c.pc) THEN Instrs ELSE {<<0, 0, 0, 0>>}) :
       LET m0 == IF AtCode(c.pc) THEN Put(m, c.pc, code) ELSE m
       IN /\ prev' = [c |-> c, m |-> m0]
          /\ IF WithKernel
             THEN LET x == KernelStep(c, m0, h) IN c' = x.c /\ m' = x.m /\ h' = x.h /\ stopped' = (x.t # NoTrap)
             ELSE LET x == CpuStep(c, m0) IN c' = x.c /\ m' = x.m /\ h' = h /\ stopped' = (x.t # NoTrap)
  /\ k' = k + 1
(* supervisor code runs as it is in memory *)
HandlerStep ==
  /\ ~stopped /\ k <= MaxSteps /\ ~c.um
  /\ LET x == CpuStep(c, m)
     IN /\ prev' = [c |-> c, m |-> m]
        /\ c' = x.c /\ m' = x.m /\ h' = h /\ stopped' = (x.t # NoTrap)
  /\ k' = k + 1
Spec == Init /\ [][UserStep \/ HandlerStep]_vars

-----------------------------------------------------------------------------
Changed(m1, m2) == {a \in DOMAIN m1.b \cup DOMAIN m2.b : RamByte(m1, a) # RamByte(m2, a)}
FlagBytes == {Root + 4 * t : t \in 0..15} \cup {Table2(p \div 32) + 4 * (p % 32) : p \in 0..511}
UserFrames == {FrameOf(p) : p \in {64, 96, 97, 481}}
WritableFrames == {FrameOf(p) : p \in {64, 96, 481}}
InFrames(a, frames) == 128 * (a \div 128) \in frames

WasUser == prev # <<>> /\ prev.c.um
TrapTaken == WasUser /\ Attempt(prev.c, prev.m).t # NoTrap

(* C08: what one user instruction can do *)
PrivilegedKept ==
  WasUser => /\ c.r[RP] = prev.c.r[RP] /\ c.r[RH] = prev.c.r[RH]
             /\ c.vm = prev.c.vm
             /\ (c.um \/ TrapTaken)
UserAttempt == Attempt(prev.c, prev.m)
UserConfined ==
  WasUser =>
    LET x == UserAttempt
    IN \A a \in Changed(prev.m, x.m) :
         InFrames(a, WritableFrames) \/ (a \in FlagBytes /\ RamByte(x.m, a) = RamByte(prev.m, a) + 16)
NoPhysicalPorts == WithKernel /\ WasUser => UserAttempt.m.io = prev.m.io

(* C12 *)
ContinuesInUserMode == WithKernel /\ ~stopped => InUserMode(c)
HaltStops == WithKernel /\ WasUser /\ UserAttempt.t = THalt => stopped
HandlerGetsTrap ==
  WithKernel /\ WasUser /\ TrapTaken /\ UserAttempt.t \notin {THalt, TSysCall} =>
    IF prev # <<>> /\ h # 0 THEN ~stopped /\ c.pc = h /\ c.r[1] = UserAttempt.t ELSE stopped
CallsKeepRegisters ==
  WithKernel /\ WasUser /\ UserAttempt.t = TSysCall /\ ~stopped =>
    /\ c.pc = UserAttempt.c.pc
    /\ \A i \in 2..15 : c.r[i] = prev.c.r[i]
    /\ c.r[1] = prev.c.r[1] \/ (prev.c.r[1] = SysRead /\ Hi(c.r[1]) = Hi(prev.c.r[1]))

(* C07: entries change only by the dirty bits of successful writes *)
EntriesKept ==
  prev # <<>> =>
    LET x == IF WithKernel THEN CpuStep(prev.c, prev.m) ELSE [m |-> m] IN
    \A a \in Changed(prev.m, x.m) :
      (InFrames(a, {Root}) \/ InFrames(a, {Table2(t) : t \in 0..15})) =>
        a \in FlagBytes /\ RamByte(x.m, a) = RamByte(prev.m, a) + 16 /\ ~BitSet(RamByte(prev.m, a), 4)

(* C09: a trap taken by the handler, which returns at once, leaves no trace *)
Saved(x) == [x.c EXCEPT !.tr = FALSE]
HandlerEntered == ~WithKernel /\ TrapTaken /\ ~stopped
EntryState ==
  HandlerEntered => /\ c.tr /\ ~c.um /\ c.pc = Handler /\ c.r[1] = UserAttempt.t
                    /\ c.r[RS] = M16(UserAttempt.c.r[RS] - 34)
                    /\ \A i \in 2..15 : i # RS => c.r[i] = UserAttempt.c.r[i]
ReturnRestores ==
  HandlerEntered => LET y == CpuStep(c, m) IN y.t = NoTrap => y.c = Saved(UserAttempt)
ReturnWorks ==
  HandlerEntered /\ UserAttempt.c.r[RS] \in 61520..61600 => CpuStep(c, m).t = NoTrap
TypeOK == CpuTypeOK(c)
=============================================================================
