---------------------------- MODULE TraceSystem ----------------------------
(***************************************************************************)
(* Validation of whole runs: source files in one arrangement, from which   *)
(* the specification gets what the program must do, and what was observed  *)
(* of several ways of building and running the same program.               *)
(*   runs: [way, out, status, err, term]; term is <<>> or what -t showed,  *)
(*   <<trap, name, difference>>; names: 1 if that has to fit the symbols   *)
(***************************************************************************)
EXTENDS TeldaSystem, TeldaTraps, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, ph, obj, run, k
vars == <<id, ph, obj, run, k>>
Limit == 60000
Init == id \in 1..Len(Cases) /\ ph = "build" /\ obj = <<>> /\ run = <<>> /\ k = 0
BuildIt ==
  /\ ph = "build"
  /\ LET b == Build(Cases[id].sources, Cases[id].members, Cases[id].opts)
         o == Program(b)
     IN IF ~b.ok THEN ph' = "unbuilt" /\ obj' = b /\ run' = run
        ELSE ph' = "run" /\ obj' = o /\ run' = RunStart(LoadedCpu(o), LoadedMem(o))
  /\ UNCHANGED <<id, k>>
Go ==
  /\ ph = "run"
  /\ run' = RunStep(run, Cases[id].in, KernelStep)
  /\ k' = k + 1
  /\ ph' = IF run'.t # NoTrap THEN "ended" ELSE IF run'.lost \/ k' = Limit THEN "lost" ELSE "run"
  /\ UNCHANGED <<id, obj>>
Spec == Init /\ [][BuildIt \/ Go]_vars

Report(what) == PrintT(<<"MISMATCH", Cases[id].id, what>>) /\ FALSE
RunFault(o) ==
  LET syms == {obj.syms[i] : i \in 1..Len(obj.syms)} IN
  IF o.out # run.out THEN <<o.way, "written", o.out, "expected", run.out>>
  ELSE IF o.term = <<>>
       THEN IF run.t = THalt THEN (IF o.status = 0 THEN <<>> ELSE <<o.way, "status", o.status, o.err>>)
            ELSE IF o.status = 0 THEN <<o.way, "success reported", TrapName[run.t]>>
            ELSE IF o.trap # TrapName[run.t] THEN <<o.way, "trap", o.trap, "expected", TrapName[run.t]>> ELSE <<>>
       ELSE IF o.term[1] # TrapName[run.t] THEN <<o.way, "ended", o.term, "expected", TrapName[run.t]>>
       ELSE IF o.names = 1 /\ <<o.term[2], o.term[3]>> \notin Near(syms, run.c.pc)
       THEN <<o.way, "ended at", o.term, "expected", Near(syms, run.c.pc), run.c.pc>> ELSE <<>>
Ended ==
  ph = "ended" => LET cs == Cases[id]
                      bad == {i \in 1..Len(cs.runs) : RunFault(cs.runs[i]) # <<>>}
                  IN bad = {} \/ Report(RunFault(cs.runs[CHOOSE i \in bad : \A j \in bad : i <= j]))
(* every program is one *)
Builds == ph # "unbuilt" \/ Report(<<"cannot be built", obj.why>>)
(* the specification loads as it says one must load *)
LoadedWell == ph = "run" /\ k = 0 => LoadFault(obj, run.c, run.m) = <<>> \/ Report(LoadFault(obj, run.c, run.m))
(* every program ends by itself *)
Finishes == ph # "lost" \/ Report(<<"does not end", run.used, k>>)
StaysInUserMode == ph = "run" => InUserMode(run.c)
=============================================================================
