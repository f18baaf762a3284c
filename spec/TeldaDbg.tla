----------------------------- MODULE TeldaDbg -----------------------------
(***************************************************************************)
(* The debugger: a loaded program and a user at the terminal.  Both the    *)
(* user's commands and the program's input come from the same lines.       *)
(*                                                                         *)
(* A session s is a record                                                 *)
(*   c, m, h   the machine and its kernel's error handler                  *)
(*   cur, tgt  how deep in subroutines the program is, how deep it is to   *)
(*             be when it stops                                            *)
(*   ibuf, obuf  the rest of a line of input, the beginning of one of      *)
(*             output                                                      *)
(*   line      how many lines have been used                               *)
(*   ph        "look" before an instruction, "cmd" stopped, "exec", "over" *)
(*   lost      the program wanted input and there was none: anything may   *)
(*             happen                                                      *)
(*                                                                         *)
(* A line is [b |-> its bytes, k |-> what it is as a command, ...].        *)
(* What is shown is a sequence of items.                                   *)
(***************************************************************************)
EXTENDS TeldaKernel, TeldaDis, TeldaTraps

Newline == 10
Start(c, m) ==
  [c |-> c, m |-> [m EXCEPT !.in = <<>>, !.io = <<>>], h |-> 0, cur |-> 0, tgt |-> 0, ibuf |-> <<>>, obuf |-> <<>>,
   line |-> 0, ph |-> "look", lost |-> FALSE]

Depth(d) == IF d.t = NoTrap THEN IF d.known THEN d.nest ELSE 0 ELSE 0
(* the instruction as it is displayed; text that is not laid down is "?" *)
Display(c, m, labels) ==
  LET d == DisAt(c, m)
      vague == d.t = NoTrap /\ IF d.known THEN d.mn = "no such ldi" \/ Spare(d.b[1], Tail(d.b)) # 0 ELSE TRUE
  IN IF d.t # NoTrap THEN <<"ins", c.pc, <<>>, TrapName[d.t], <<>>>>
     ELSE IF vague THEN <<"ins", c.pc, d.b, "?", <<>>>>
     ELSE <<"ins", c.pc, d.b, d.mn, [i \in 1..Len(d.ops) |-> ShownAs(d.ops[i], labels)]>>
EndsParagraph(d) == d.t # NoTrap \/ d.ends \/ Depth(d) # 0

FlagNames(c) ==
  {f \in {"zero", "overflow", "sign", "carry", "vm", "user"} :
     CASE f = "zero" -> c.z [] f = "overflow" -> c.v [] f = "sign" -> c.s [] f = "carry" -> c.cy [] f = "vm" -> c.vm [] f = "user" -> c.um}
WideOf(c, name) == GetW(c, (CHOOSE i \in 1..16 : WideRegNames[i] = name) - 1)
ByteOf(c, name) == GetB(c, (CHOOSE i \in 1..16 : ByteRegNames[i] = name) - 1)

Done(s, out, errs) == [s |-> s, out |-> out, errs |-> errs]

Look(s, labels) ==
  LET d == DisAt(s.c, s.m)
      lab == IF s.c.pc \in DOMAIN labels THEN <<<<"label", labels[s.c.pc]>>>> ELSE <<>>
      blank == IF EndsParagraph(d) THEN <<<<"blank">>>> ELSE <<>>
  IN IF s.cur # s.tgt THEN Done([s EXCEPT !.ph = "exec"], <<>>, 0)
     ELSE Done([s EXCEPT !.ph = "cmd"], lab \o <<Display(s.c, s.m, labels)>> \o blank, 0)

Command(s, lines) ==
  LET l == lines[s.line + 1]
      used == [s EXCEPT !.line = @ + 1]
      nest == Depth(DisAt(s.c, s.m))
      prompt == <<<<"prompt">>>>
      exec(depth) == Done([used EXCEPT !.ph = "exec", !.tgt = depth], prompt, 0)
      at == VRead(Ctx(s.c, s.m), l.addr)
      next == VRead(Ctx(s.c, s.m), M16(l.addr + 1))
  IN IF s.line = Len(lines) THEN Done([s EXCEPT !.ph = "over"], prompt, 0)
     ELSE CASE l.k = "quit" -> Done([used EXCEPT !.ph = "over"], prompt, 0)
            [] l.k = "in" -> exec(s.cur + nest)
            \* the next instruction of this subroutine, or of the one returned to
            [] l.k = "next" -> exec(Min2(s.cur, s.cur + nest))
            [] l.k = "out" -> exec(s.cur - 1)
            [] l.k = "wide" -> Done(used, prompt \o <<<<"wide", l.name, WideOf(s.c, l.name)>>>>, 0)
            [] l.k = "byte" -> Done(used, prompt \o <<<<"byte", l.name, ByteOf(s.c, l.name)>>>>, 0)
            [] l.k = "pc" -> Done(used, prompt \o <<<<"wide", "pc", s.c.pc>>>>, 0)
            [] l.k = "flags" -> Done(used, prompt \o <<<<"flags", FlagNames(s.c)>>>>, 0)
            [] l.k = "mem" ->
                 (IF at.t # NoTrap \/ next.t # NoTrap THEN Done(used, prompt, 1)
                  ELSE Done(used, prompt \o <<<<"mem", at.val, next.val>>>>, 0))
            [] l.k = "go" -> Done([used EXCEPT !.c.pc = l.addr, !.ph = "look"], prompt, 0)
            \* not a command
            [] OTHER -> Done(used, prompt, 1)

Execute(s, lines) ==
  LET d == DisAt(s.c, s.m)
      x == KernelStep(s.c, [s.m EXCEPT !.in = s.ibuf, !.io = <<>>], s.h)
      reads == \E i \in 1..Len(x.m.io) : x.m.io[i][1] = 0
      writes == SelectSeq(x.m.io, LAMBDA e: e[1] = 1)
      v == writes[1][3]
      after == [s EXCEPT !.c = x.c, !.m = [x.m EXCEPT !.in = <<>>, !.io = <<>>], !.h = x.h, !.ibuf = x.m.in,
                !.obuf = IF writes = <<>> THEN @ ELSE IF v = Newline THEN <<>> ELSE Append(@, v),
                !.cur = IF x.t = NoTrap THEN @ + Depth(d) ELSE @,
                !.ph = IF x.t = NoTrap THEN "look" ELSE "over"]
  IN IF reads /\ s.ibuf = <<>>
     THEN IF s.line = Len(lines) THEN Done([s EXCEPT !.ph = "over", !.lost = TRUE], <<<<"stdin">>>>, 0)
          ELSE Done([s EXCEPT !.ibuf = lines[s.line + 1].b \o <<Newline>>, !.line = @ + 1], <<<<"stdin">>>>, 0)
     ELSE Done(after,
               (IF writes # <<>> /\ v = Newline THEN <<<<"stdout", s.obuf>>>> ELSE <<>>)
               \o (IF x.t # NoTrap THEN <<<<"ended", TrapName[x.t]>>>> ELSE <<>>), 0)

DbgStep(s, lines, labels) ==
  CASE s.ph = "look" -> Look(s, labels)
    [] s.ph = "cmd" -> Command(s, lines)
    [] s.ph = "exec" -> Execute(s, lines)
(* output that is not a whole line yet is shown in the end *)
LastItems(s) == IF s.obuf = <<>> THEN <<>> ELSE <<<<"stdout", s.obuf>>>>

(* the name an address is known by: the last global one there, or the first local one *)
LabelsOf(syms) ==
  LET named == {i \in 1..Len(syms) : syms[i].name # ""}
      name(a) ==
        LET here == {i \in named : syms[i].at = a}
            glob == {i \in here : syms[i].g = 1}
        IN IF glob # {} THEN syms[CHOOSE i \in glob : \A j \in glob : j <= i].name
           ELSE syms[CHOOSE i \in here : \A j \in here : i <= j].name
  IN [a \in {syms[i].at : i \in named} |-> name(a)]
=============================================================================
