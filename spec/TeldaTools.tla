------------------------------ MODULE TeldaTools ------------------------------
(***************************************************************************)
(* The tools as processes that read their inputs one after the other and   *)
(* then do their work: what a run has done when some inputs are not        *)
(* readable.  The linker (tl), the emulator (t) and the debugger (tdbg)    *)
(* read everything first; the strip tool (tstrip) and the dump (tobjdump)  *)
(* treat one input after the other.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Tools == {"tl", "t", "tdbg", "tstrip", "tobjdump"}
EachAlone(tool) == tool \in {"tstrip", "tobjdump"}

(* What is certain of a run whose input i is readable iff readable[i]: whether it fails, which inputs are
   worked on, and whether anything may be written to the output or executed *)
Outcome(tool, readable) ==
  LET all == \A i \in DOMAIN readable : readable[i]
  IN [fails |-> ~all,
      treated |-> IF EachAlone(tool) \/ all THEN {i \in DOMAIN readable : readable[i]} ELSE {},
      works |-> EachAlone(tool) \/ all]

CONSTANTS MaxInputs
VARIABLES tool, readable, at, status, treated, worked
vars == <<tool, readable, at, status, treated, worked>>
Running == -1

Init ==
  /\ tool \in Tools
  /\ \E n \in 1..(IF tool \in {"t", "tdbg"} THEN 1 ELSE MaxInputs) : readable \in [1..n -> BOOLEAN]
  /\ at = 1 /\ status = Running /\ treated = {} /\ worked = FALSE
(* of what is read alone, the failure is remembered *)
failed == \E i \in 1..(at - 1) : ~readable[i]

Read ==
  /\ status = Running /\ at <= Len(readable) /\ readable[at]
  /\ at' = at + 1
  /\ IF EachAlone(tool) THEN treated' = treated \cup {at} /\ worked' = TRUE ELSE UNCHANGED <<treated, worked>>
  /\ UNCHANGED <<tool, readable, status>>
Refuse ==
  /\ status = Running /\ at <= Len(readable) /\ ~readable[at]
  /\ at' = at + 1
  /\ status' = IF EachAlone(tool) THEN Running ELSE 1
  /\ UNCHANGED <<tool, readable, treated, worked>>
(* with everything read the work begins *)
Work ==
  /\ status = Running /\ at > Len(readable) /\ ~EachAlone(tool) /\ ~worked
  /\ worked' = TRUE /\ treated' = DOMAIN readable
  /\ UNCHANGED <<tool, readable, at, status>>
(* it may fail for reasons of its own *)
End ==
  /\ status = Running /\ at > Len(readable)
  /\ IF EachAlone(tool) THEN status' = IF failed THEN 1 ELSE 0
     ELSE \/ worked /\ status' \in {0, 1}
          \/ ~worked /\ status' = 1
  /\ UNCHANGED <<tool, readable, at, treated, worked>>
Next == Read \/ Refuse \/ Work \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
TypeOK == /\ status \in {Running, 0, 1} /\ at \in 1..(Len(readable) + 1) /\ treated \subseteq DOMAIN readable
(* every run is as its outcome says *)
AsForetold ==
  status # Running =>
    LET o == Outcome(tool, readable)
    IN (o.fails => status = 1) /\ treated \subseteq o.treated /\ (EachAlone(tool) => treated = o.treated) /\ (worked => o.works)
(* nothing is written or executed before all is known to be readable *)
ReadsFirst == worked /\ ~EachAlone(tool) => \A i \in DOMAIN readable : readable[i]
(* what is not readable is not touched, and does not keep the others from being treated *)
NeverTouched == \A i \in treated : readable[i]
Alone == [][EachAlone(tool) /\ at' = at + 1 => (at \in treated') = readable[at]]_vars
Ends == <>(status # Running)
=============================================================================
