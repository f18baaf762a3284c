----------------------------- MODULE TeldaTraps -----------------------------
(* The names the tools have for traps. *)
EXTENDS TeldaISA, TLC
TrapName ==
  (TInvalid :> "Invalid") @@ (TSysCall :> "SysCall") @@ (TZeroDiv :> "ZeroDiv") @@ (THalt :> "Halt")
  @@ (TL1Fault :> "Level1PageFault") @@ (TL2Fault :> "Level2PageFault") @@ (TIllegalOp :> "IllegalOperation")
  @@ (TIllegalRead :> "IllegalRead") @@ (TIllegalWrite :> "IllegalWrite") @@ (TIllegalExecute :> "IllegalExecute")
  @@ (TIllegalReth :> "IllegalHandlerReturn")
=============================================================================
