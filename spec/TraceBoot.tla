----------------------------- MODULE TraceBoot -----------------------------
(***************************************************************************)
(* Validation of raw boot images: the image, the input, and what was       *)
(* observed of running it, without and with the display of where it ended. *)
(***************************************************************************)
EXTENDS TeldaSystem, TeldaTraps, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, ph, run, k
vars == <<id, ph, run, k>>
Unended == -1000
(* Some images go on for ever: those the tool was not seen to end are only  *)
(* followed far enough to see that they do not end soon.                   *)
Limit(cs) == IF \A i \in 1..Len(cs.runs) : cs.runs[i].status = Unended THEN 1500 ELSE 12000
Image(cs) ==
  LET last == Max({0} \cup {cs.parts[i][1] + Len(cs.parts[i][2]) : i \in 1..Len(cs.parts)})
      at == [i \in 1..Len(cs.parts) |-> cs.parts[i]]
  IN FoldLeft(LAMBDA acc, p: acc \o [i \in 1..(p[1] - Len(acc)) |-> 0] \o p[2], <<>>, at)
Init == /\ id \in 1..Len(Cases) /\ ph = "run" /\ k = 0
        /\ run = RunStart(BootCpu, BootMem(<<>>))
(* kept out of the states *)
Images == [i \in 1..Len(Cases) |-> Image(Cases[i])]
WithRom(c, m, h) == LET x == BootStep(c, [m EXCEPT !.rom = Images[id]], h) IN [x EXCEPT !.m.rom = <<>>]
Go ==
  /\ ph = "run"
  /\ run' = RunStep(run, Cases[id].in, WithRom)
  /\ k' = k + 1
  /\ ph' = IF run'.t # NoTrap THEN "ended" ELSE IF run'.lost \/ k' >= Limit(Cases[id]) THEN "lost" ELSE "run"
  /\ UNCHANGED id
Spec == Init /\ [][Go]_vars

Report(what) == PrintT(<<"MISMATCH", Cases[id].id, what>>) /\ FALSE
RunFault(o) ==
  IF o.out # run.out THEN <<o.way, "written", o.out, "expected", run.out>>
  ELSE IF o.term = <<>>
       THEN IF run.t = THalt THEN (IF o.status = 0 THEN <<>> ELSE <<o.way, "status", o.status, o.err>>)
            ELSE IF o.status = 0 THEN <<o.way, "success reported", TrapName[run.t]>>
            ELSE IF o.trap # TrapName[run.t] THEN <<o.way, "trap", o.trap, "expected", TrapName[run.t]>> ELSE <<>>
       ELSE IF o.term # <<TrapName[run.t], <<>>, run.c.pc>>
            THEN <<o.way, "ended", o.term, "expected", TrapName[run.t], run.c.pc>> ELSE <<>>
Ended ==
  ph = "ended" => LET cs == Cases[id]
                      bad == {i \in 1..Len(cs.runs) : RunFault(cs.runs[i]) # <<>>}
                  IN bad = {} \/ Report(RunFault(cs.runs[CHOOSE i \in bad : \A j \in bad : i <= j]))
Finishes == ph = "lost" => (\A i \in 1..Len(Cases[id].runs) : Cases[id].runs[i].status = Unended) \/ Report(<<"does not end", run.used, k, run.c.pc>>)
(* privileges are got back only through the handler *)
Privilege == [][run.c.um /\ ~run'.c.um => run'.t # NoTrap \/ (run.c.r[RH] # 0 /\ run'.c.pc = run.c.r[RH] /\ run'.c.tr)]_vars
=============================================================================
