--------------------------- MODULE TeldaMachine ---------------------------
(***************************************************************************)
(* The machine as a library: a processor, its memory and perhaps an        *)
(* emulated kernel of the user's own.  A trap the processor does not take  *)
(* itself goes to the kernel, whose verdict decides.                       *)
(*                                                                         *)
(* Of a kernel only what it does each time it is asked matters: a sequence *)
(* of acts.  An act is a record                                            *)
(*   r   changes to registers, a sequence of <<number, value>>             *)
(*   pc, fl   sequences of at most one: a new program counter, flag word   *)
(*   w   changes to memory, a sequence of <<address, byte>>                *)
(*   v   the verdict: NoTrap (go on) or the trap that ends the run         *)
(* A kernel that has no acts left changes nothing and gives back the trap. *)
(*                                                                         *)
(* A machine s is a record                                                 *)
(*   c, m   processor and memory                                           *)
(*   k      which kernel is installed, 0 for none                          *)
(*   acts   what each kernel will yet do                                   *)
(*   t      what the last operation came to                                *)
(*   asked  the kernels asked during it: <<kernel, trap, registers, pc,    *)
(*          flag word>> as the trap left them                              *)
(***************************************************************************)
EXTENDS TeldaCpu

NewMachine(c, m, acts) == [c |-> c, m |-> m, k |-> 0, acts |-> acts, t |-> NoTrap, asked |-> <<>>]

Perform(c, m, act) ==
  LET r == FoldLeft(LAMBDA regs, e: [regs EXCEPT ![e[1]] = e[2]], c.r, act.r)
      flagged == IF act.fl = <<>> THEN c ELSE SetFlagWord(c, act.fl[1])
  IN [c |-> [flagged EXCEPT !.r = r, !.pc = IF act.pc = <<>> THEN @ ELSE act.pc[1]],
      m |-> FoldLeft(LAMBDA mm, e: MemWrite(mm, e[1], e[2]), m, act.w)]

Ask(s, x) ==
  LET mine == s.acts[s.k]
      asked == Append(s.asked, <<s.k, x.t, x.c.r, x.c.pc, FlagWord(x.c)>>)
  IN IF mine = <<>> THEN [s EXCEPT !.c = x.c, !.m = x.m, !.t = x.t, !.asked = asked]
     ELSE LET y == Perform(x.c, x.m, Head(mine))
          IN [s EXCEPT !.c = y.c, !.m = y.m, !.t = Head(mine).v, !.acts[s.k] = Tail(mine), !.asked = asked]

(* one instruction *)
MachineStep(s) ==
  LET x == CpuStep(s.c, s.m)
  IN IF x.t # NoTrap /\ s.k # 0 THEN Ask(s, x)
     ELSE [s EXCEPT !.c = x.c, !.m = x.m, !.t = x.t]

(* to the first trap nobody handles, if it comes within so many instructions *)
RECURSIVE MachineRun(_, _)
MachineRun(s, steps) ==
  LET n == MachineStep(s) IN IF n.t = NoTrap /\ steps > 1 THEN MachineRun(n, steps - 1) ELSE n

(* a kernel takes the place of the one before; was there one? *)
Install(s, k) == [s EXCEPT !.k = k, !.t = IF s.k = 0 THEN 0 ELSE 1]

Operate(s, op, steps) ==
  LET f == [s EXCEPT !.asked = <<>>]
  IN CASE op[1] = "step" -> MachineStep(f)
       [] op[1] = "run" -> MachineRun(f, steps)
       [] op[1] = "install" -> Install(f, op[2])
=============================================================================
