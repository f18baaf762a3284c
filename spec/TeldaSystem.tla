---------------------------- MODULE TeldaSystem ----------------------------
(***************************************************************************)
(* The whole: from source text to what a program writes and how it ends.   *)
(* Composed of the specifications of the assembler, the linker, the        *)
(* address space of a loaded program, the processor and the kernel.        *)
(*                                                                         *)
(* A source is [main, files] as for the assembler.                         *)
(***************************************************************************)
EXTENDS TeldaKernel, TeldaLoad
A == INSTANCE TeldaAsm
L == INSTANCE TeldaLink

(* [ok] and what the linker makes of the sources and the members of archives *)
Build(sources, members, opts) ==
  LET objs == [i \in 1..Len(sources) |-> A!Assemble(sources[i].main, sources[i].files)]
      mems == [i \in 1..Len(members) |-> A!Assemble(members[i].main, members[i].files)]
      good(x) == \A i \in 1..Len(x) : x[i].ok
      of(x) == [i \in 1..Len(x) |-> x[i].obj]
  IN IF ~good(objs) THEN [ok |-> FALSE, why |-> "source"]
     ELSE IF ~good(mems) THEN [ok |-> FALSE, why |-> "member"]
     ELSE L!Link(L!Participants(of(objs), of(mems)), opts)
Program(built) == L!AsObject(built)

-----------------------------------------------------------------------------
(* One way of loading a program.  Any that satisfies LoadFault = <<>> will  *)
(* do, since the program cannot tell.                                       *)
Root == 32768
Table(i) == Root + 128 * (i + 1)
FrameFor(p) == 65536 + 128 * p
PermByte(ps) == 33 + (IF "R" \in ps THEN 2 ELSE 0) + (IF "W" \in ps THEN 4 ELSE 0) + (IF "X" \in ps THEN 8 ELSE 0)
EntryByte(frame, ps, j) ==
  CASE j = 0 -> PermByte(ps)
    [] j = 1 -> 128 * ((frame \div 128) % 2)
    [] j = 2 -> (frame \div 256) % 256
    [] j = 3 -> frame \div 65536
LoadedBytes(obj) ==
  LET perms == [p \in {q \in Pages : PagePerms(obj, q) # {}} |-> PagePerms(obj, p)]
      used == DOMAIN perms
      regions == {p \div 32 : p \in used}
      union(i) == UNION {perms[p] : p \in {q \in used : q \div 32 = i}}
      above == [i \in regions |-> union(i)]
      first == {Root + 4 * i + j : i \in regions, j \in 0..3}
      second == {Table(p \div 32) + 4 * (p % 32) + j : p \in used, j \in 0..3}
      place(a) == FrameFor(a \div 128) + (a % 128)
      of(s) == [a \in {place(s[2] + i - 1) : i \in 1..Len(s[3])} |-> s[3][a - 65536 - s[2] + 1]]
  IN FoldLeft(LAMBDA acc, s: of(s) @@ acc, <<>>, obj.segs)
     @@ [a \in first |-> LET i == (a - Root) \div 4 IN EntryByte(Table(i), above[i], (a - Root) % 4)]
     @@ [a \in second |-> LET p == 32 * ((a - Table(0)) \div 128) + ((a - Table(0)) % 128) \div 4
                          IN EntryByte(FrameFor(p), perms[p], a % 4)]
(* general purpose registers have any value *)
AnyValue == 4660
LoadedCpu(obj) ==
  [r |-> [i \in 1..15 |-> IF i <= 10 THEN AnyValue ELSE IF i = RL THEN 128 ELSE IF i = RP THEN Root ELSE IF i = RH THEN 0 ELSE 65535],
   pc |-> obj.entry[2], z |-> FALSE, s |-> FALSE, cy |-> FALSE, v |-> FALSE, vm |-> TRUE, um |-> TRUE, tr |-> FALSE, rv |-> FALSE]
LoadedMem(obj) == NewMem("lazy", LoadedBytes(obj), <<>>, <<>>)

-----------------------------------------------------------------------------
(* Running.  A run is [c, m, h, t, out, used, lost]: what was written, how  *)
(* many bytes of the input were read; lost if there was not enough.         *)
RunStart(c, m) == [c |-> c, m |-> m, h |-> 0, t |-> NoTrap, out |-> <<>>, used |-> 0, lost |-> FALSE]
(* any port is the terminal *)
RunStep(w, input, step(_, _, _)) ==
  LET here == SubSeq(input, w.used + 1, Min2(w.used + 48, Len(input)))
      x == step(w.c, [w.m EXCEPT !.in = here, !.io = <<>>], w.h)
      reads == Len(SelectSeq(x.m.io, LAMBDA e: e[1] = 0))
      writes == SelectSeq(x.m.io, LAMBDA e: e[1] = 1)
  IN [c |-> x.c, m |-> [x.m EXCEPT !.in = <<>>, !.io = <<>>], h |-> x.h, t |-> x.t,
      out |-> w.out \o [i \in 1..Len(writes) |-> writes[i][3]], used |-> w.used + reads,
      lost |-> w.used + reads > Len(input)]

-----------------------------------------------------------------------------
(* A raw image: no kernel, the processor as it starts.  The registers that  *)
(* have no definite value at the start have any.                            *)
BootCpu ==
  [r |-> [i \in 1..15 |-> IF i = RL THEN 128 ELSE IF i = RH THEN 0 ELSE AnyValue],
   pc |-> 128, z |-> FALSE, s |-> FALSE, cy |-> FALSE, v |-> FALSE, vm |-> FALSE, um |-> FALSE, tr |-> FALSE, rv |-> FALSE]
BootMem(image) == NewMem("lazy", <<>>, image, <<>>)
BootStep(c, m, h) == LET x == CpuStep(c, m) IN [c |-> x.c, m |-> x.m, h |-> h, t |-> x.t]

-----------------------------------------------------------------------------
(* where a run ended, in terms of symbols <<name, g, segment, address>>:   *)
(* the named symbol closest before it, if it is closer than address 0      *)
Near(syms, pc) ==
  LET before == {y \in syms : y[1] # <<>> /\ y[4] <= pc /\ pc - y[4] < pc}
      least == {y \in before : \A q \in before : y[4] >= q[4]}
  IN IF before = {} THEN {<<<<>>, pc>>} ELSE {<<y[1], pc - y[4]>> : y \in least}
=============================================================================
