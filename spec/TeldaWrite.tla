----------------------------- MODULE TeldaWrite -----------------------------
(***************************************************************************)
(* How a tool writes its output: through a buffer, onto a device that may  *)
(* refuse to hold more than Limit bytes, going back to fill in section     *)
(* lengths.  The tool's report of success must imply a complete file.      *)
(*                                                                         *)
(* There may have been a file before, of any length.  Opening it cuts it   *)
(* down to the keep bytes in front of the object, which stay (none but     *)
(* where a file is rewritten in place).                                    *)
(*                                                                         *)
(* Work is the list of operations: <<"put", n>> appends n bytes,           *)
(* <<"patch", d>> overwrites the byte d places back (seeking, so the       *)
(* buffer is flushed first).  A put flushes the buffer first if it would   *)
(* overflow and bypasses it if n is at least its capacity.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Works, Capacities, MaxLimit, Olds

VARIABLES work, cap, limit, old, k, made, buf, disk, report
vars == <<work, cap, limit, old, k, made, buf, disk, report>>

(* old: how long the file was, and how much of it is kept *)
Stale(n) == [i \in 1..n |-> 1000 + i]
Init ==
  /\ work \in Works /\ cap \in Capacities /\ limit \in 0..MaxLimit
  /\ old \in Olds /\ old[1] <= limit
  /\ k = 0 /\ made = <<>> /\ buf = <<>> /\ disk = Stale(old[1]) /\ report = "unopened"

Fresh(n) == [i \in 1..n |-> Len(made) + i]
(* what a device write of bs at the end leaves, and whether it went through *)
Held(bs) == IF Len(disk) + Len(bs) <= limit THEN bs ELSE SubSeq(bs, 1, limit - Len(disk))
Through(bs) == Len(disk) + Len(bs) <= limit
Fail(d) == report' = "failure" /\ disk' = d /\ UNCHANGED <<buf, made, k>>

Put(n) ==
  LET bs == Fresh(n)
  IN IF Len(buf) + n <= cap /\ n < cap
     THEN buf' = buf \o bs /\ disk' = disk /\ made' = made \o bs /\ k' = k + 1 /\ UNCHANGED report
     ELSE IF ~Through(buf) THEN Fail(disk \o Held(buf))
     ELSE IF n < cap
          THEN disk' = disk \o buf /\ buf' = bs /\ made' = made \o bs /\ k' = k + 1 /\ UNCHANGED report
          ELSE IF Through(buf \o bs)
               THEN disk' = disk \o buf \o bs /\ buf' = <<>> /\ made' = made \o bs /\ k' = k + 1 /\ UNCHANGED report
               ELSE Fail(disk \o Held(buf \o bs))
Patch(d) ==
  LET full == disk \o buf
      i == Len(made) - d
  IN IF ~Through(buf) THEN Fail(disk \o Held(buf))
     ELSE /\ disk' = [full EXCEPT ![i] = -i] /\ buf' = <<>> /\ made' = [made EXCEPT ![i] = -i]
          /\ k' = k + 1 /\ UNCHANGED report
Finish ==
  IF Through(buf) THEN report' = "success" /\ disk' = disk \o buf /\ buf' = <<>> /\ UNCHANGED <<made, k>>
  ELSE Fail(disk \o Held(buf))

Open ==
  /\ report = "unopened" /\ report' = "none"
  /\ disk' = SubSeq(disk, 1, old[2]) /\ made' = SubSeq(disk, 1, old[2])
  /\ UNCHANGED <<work, cap, limit, old, k, buf>>
Step ==
  /\ report = "none"
  /\ IF k = Len(work) THEN Finish
     ELSE LET op == work[k + 1] IN IF op[1] = "put" THEN Put(op[2]) ELSE Patch(op[2])
  /\ UNCHANGED <<work, cap, limit, old>>
Spec == Init /\ [][Open \/ Step]_vars /\ WF_vars(Open \/ Step)

SuccessMeansComplete == report = "success" => disk = made /\ k = Len(work)
(* nothing of the old file is left but what was kept in front *)
NoLeftovers ==
  report # "unopened" => \A i \in 1..Len(disk) : (disk[i] > 1000) = (i <= old[2])
NeverOver == Len(disk) <= limit
FitsMeansSuccess ==
  report = "failure" => Len(made) + (IF k < Len(work) /\ work[k + 1][1] = "put" THEN work[k + 1][2] ELSE 0) > limit
Reports == <>(report \in {"success", "failure"})
=============================================================================
