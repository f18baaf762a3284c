----------------------------- MODULE TraceDbg -----------------------------
(***************************************************************************)
(* Validation of debugger sessions.  A case is the machine as it was after *)
(* loading (memory from the library, registers as the session showed them  *)
(* first), the symbols, the lines typed and the items shown.               *)
(*                                                                         *)
(* The ghost variables rets (return addresses of the calls executed) and   *)
(* aim (where the last command must lead, if that is known) state what the *)
(* commands mean independently of the nesting counter.                     *)
(***************************************************************************)
EXTENDS TeldaDbg, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, s, pos, errs, bad, rets, aim
vars == <<id, s, pos, errs, bad, rets, aim>>

ObservedCpu(o) ==
  SetFlagWord([r |-> SubSeq(o, 1, 15), pc |-> o[16], z |-> FALSE, s |-> FALSE, cy |-> FALSE,
               v |-> FALSE, vm |-> FALSE, um |-> FALSE, tr |-> FALSE, rv |-> FALSE], o[17])
FrameMap(chunks) == [a \in {chunks[i][1] : i \in 1..Len(chunks)} |->
                       chunks[CHOOSE i \in 1..Len(chunks) : chunks[i][1] = a][2]]
BytesOf(chunks) ==
  LET fm == FrameMap(chunks)
  IN [a \in UNION {f..(f + 127) : f \in DOMAIN fm} |-> fm[128 * (a \div 128)][1 + (a % 128)]]

(* an item as it must look; want may leave the text of an instruction open *)
ItemOk(want, got) ==
  IF want[1] = "ins" /\ want[4] = "?"
  THEN got[1] = "ins" /\ got[2] = want[2] /\ got[3] = want[3]
  ELSE IF want[1] = "flags" THEN got[1] = "flags" /\ {got[2][i] : i \in 1..Len(got[2])} = want[2]
  ELSE IF want[1] = "byte" THEN Len(got) = 4 /\ SubSeq(got, 1, 3) = want
       \* printable characters are shown
       /\ (want[3] \in 32..126 /\ want[3] \notin {34, 92} => got[4] = <<want[3]>>)
  ELSE got = want

Compare(items, out, at) ==
  IF at + Len(out) > Len(items) THEN <<"cut off after", at, "expected", out>>
  ELSE LET wrong == {i \in 1..Len(out) : ~ItemOk(out[i], items[at + i])}
       IN IF wrong = {} THEN <<>>
          ELSE LET i == CHOOSE j \in wrong : \A q \in wrong : j <= q IN <<"item", at + i, "expected", out[i], "observed", items[at + i]>>

Init ==
  \E i \in 1..Len(Cases) :
    /\ id = i
    /\ s = Start(ObservedCpu(Cases[i].c), NewMem("lazy", BytesOf(Cases[i].mem), <<>>, <<>>))
    /\ pos = 0
    /\ errs = 0
    /\ bad = <<>>
    /\ rets = <<>>
    /\ aim = <<>>

NoAim == <<>>
Aim(st, l) ==
  LET d == DisAt(st.c, st.m)
      n == Depth(d)
  IN IF st.h # 0 \/ d.t # NoTrap \/ ~d.known THEN NoAim
     ELSE CASE l.k = "next" /\ n = 1 -> <<d.next>>
            [] l.k \in {"next", "in"} /\ n = -1 -> <<st.c.r[RL]>>
            [] l.k = "in" /\ n = 1 -> <<Wide(d.b[2], d.b[3])>>
            [] l.k = "out" /\ rets # <<>> -> <<rets[Len(rets)]>>
            [] OTHER -> NoAim
Step ==
  /\ bad = <<>>
  /\ s.ph # "over"
  /\ LET cs == Cases[id]
         x == DbgStep(s, cs.lines, LabelsOf(cs.syms))
         d == DisAt(s.c, s.m)
         executed == s.ph = "exec" /\ x.s.ph = "look"
         isCommand == s.ph = "cmd" /\ s.line < Len(cs.lines)
     IN /\ s' = x.s
        /\ pos' = pos + Len(x.out)
        /\ errs' = errs + x.errs
        /\ bad' = Compare(cs.items, x.out, pos)
        /\ id' = id
        /\ rets' = IF ~executed \/ d.t # NoTrap THEN rets
                   ELSE IF Depth(d) = 1 THEN Append(rets, d.next)
                   ELSE IF Depth(d) = -1 /\ rets # <<>> THEN SubSeq(rets, 1, Len(rets) - 1) ELSE rets
        /\ aim' = IF s.ph = "cmd" /\ x.s.ph = "exec" THEN (IF cs.nested = 1 THEN Aim(s, cs.lines[s.line + 1]) ELSE NoAim)
                  ELSE IF s.ph = "cmd" /\ x.s.ph = "look" THEN NoAim
                  ELSE IF x.s.h # 0 THEN NoAim ELSE aim
Spec == Init /\ [][Step]_vars

Final ==
  LET cs == Cases[id]
      f == Compare(cs.items, LastItems(s), pos)
  IN IF s.lost THEN <<>>
     ELSE IF f # <<>> THEN f
     ELSE IF Len(cs.items) # pos + Len(LastItems(s)) THEN <<"more is shown", cs.items[pos + Len(LastItems(s)) + 1]>>
     ELSE IF cs.status # 0 THEN <<"status", cs.status>>
     ELSE IF cs.errs # errs THEN <<"complaints", cs.errs, "expected", errs>>
     ELSE <<>>
Report(what) == PrintT(<<"MISMATCH", Cases[id].id, what>>) /\ FALSE
Conforms ==
  /\ bad = <<>> \/ Report(bad)
  /\ s.ph = "over" /\ bad = <<>> => Final = <<>> \/ Report(Final)
(* every stop is where the command leads *)
StopsWhereMeant == s.ph = "cmd" /\ aim # NoAim => s.c.pc = aim[1] \/ Report(<<"stopped at", s.c.pc, "meant", aim>>)
=============================================================================
