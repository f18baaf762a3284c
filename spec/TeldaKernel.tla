---------------------------- MODULE TeldaKernel ----------------------------
(***************************************************************************)
(* The emulated kernel: what the machine does with a trap raised by a      *)
(* loaded user program.  A machine state is the processor c, the memory m  *)
(* (of kind "lazy") and the registered error handler h (0: none).          *)
(***************************************************************************)
EXTENDS TeldaCpu

SysShow == 0
SysRead == 3
SysWrite == 4
SysHandler == 15
Console == 1

(* back to the program *)
Resume(x, h) ==
  [c |-> [x.c EXCEPT !.tr = FALSE, !.um = TRUE], m |-> x.m, h |-> h, t |-> NoTrap]
StopRun(x, h) == [c |-> x.c, m |-> x.m, h |-> h, t |-> x.t]

KernelCall(x, h) ==
  LET n == x.c.r[1]
  IN CASE n = SysShow -> Resume(x, h)
       [] n = SysRead -> LET r == MemRead(x.m, Console)
                         IN Resume([x EXCEPT !.c = SetB(@, 1, r.v), !.m = r.m], h)
       [] n = SysWrite -> Resume([x EXCEPT !.m = MemWrite(@, Console, GetB(x.c, 3))], h)
       [] n = SysHandler -> Resume(x, x.c.r[2])
       [] OTHER -> StopRun(x, h)

KernelTrap(x, h) ==
  CASE x.t = TSysCall -> KernelCall(x, h)
    [] x.t = THalt -> StopRun(x, h)
    [] h # 0 -> Resume([x EXCEPT !.c.r[1] = x.t, !.c.pc = h], h)
    [] OTHER -> StopRun(x, h)

(* one step of the machine: t is NoTrap if the program goes on *)
KernelStep(c, m, h) ==
  LET x == CpuStep(c, m)
  IN IF x.t = NoTrap THEN [c |-> x.c, m |-> x.m, h |-> h, t |-> NoTrap]
     ELSE KernelTrap(x, h)

(* invariant of every state in which the program goes on *)
InUserMode(c) == c.um /\ c.vm /\ ~c.tr
=============================================================================
