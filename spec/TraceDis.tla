------------------------------ MODULE TraceDis ------------------------------
(***************************************************************************)
(* Validation of recorded disassemblies.  A case is a machine state and    *)
(* what was shown at each of several program counters in that state:       *)
(*  t trap or -1 (or -99), addr, b bytes, mn mnemonic, ops operands as     *)
(*  <<"name", text>> or <<"num", value>>, next, ends, nest, kept (1 if the *)
(*  machine was the same afterwards).                                      *)
(***************************************************************************)
EXTENDS TeldaDis, FiniteSets, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, k
vars == <<id, k>>
Init == id \in 1..Len(Cases) /\ k = 0
Step == k < Len(Cases[id].shown) /\ k' = k + 1 /\ id' = id
Spec == Init /\ [][Step]_vars

ObservedCpu(o) ==
  SetFlagWord([r |-> SubSeq(o, 1, 15), pc |-> o[16], z |-> FALSE, s |-> FALSE, cy |-> FALSE,
               v |-> FALSE, vm |-> FALSE, um |-> FALSE, tr |-> FALSE, rv |-> FALSE], o[17])
(* chunks are <<address, bytes>> *)
BytesOf(chunks) ==
  LET range(i) == chunks[i][1]..(chunks[i][1] + Len(chunks[i][2]) - 1)
  IN FoldLeft(LAMBDA f, i: [a \in range(i) |-> chunks[i][2][a - chunks[i][1] + 1]] @@ f, <<>>, [i \in 1..Len(chunks) |-> i])
Labels(cs) == [a \in {cs.labels[i][1] : i \in 1..Len(cs.labels)} |->
                 cs.labels[CHOOSE i \in 1..Len(cs.labels) : cs.labels[i][1] = a][2]]

Diff(what, want, got) == IF want = got THEN <<>> ELSE <<<<what, "expected", want, "observed", got>>>>
Wrong(cs, o) ==
  LET c == [ObservedCpu(cs.c) EXCEPT !.pc = o.at]
      d == DisAt(c, NewMem("flat", BytesOf(cs.mem), <<>>, <<>>))
      lab == Labels(cs)
      named == ~d.known \/ d.mn = "no such ldi" \/ Spare(d.b[1], Tail(d.b)) # 0
  IN Diff("outcome", d.t, o.t)
     \o (IF d.t # NoTrap \/ o.t # NoTrap THEN <<>>
         ELSE Diff("address", o.at, o.addr)
              \o (IF d.known
                  THEN Diff("bytes", d.b, o.b) \o Diff("next", d.next, o.next)
                       \o (IF Spare(d.b[1], Tail(d.b)) # 0 THEN <<>>
                           ELSE IF d.mn = "no such ldi"
                           THEN (IF o.mn \in DisMnemonics THEN <<<<"shown as an instruction", o.mn>>>> ELSE <<>>)
                           ELSE Diff("operation", d.mn, o.mn)
                                \o Diff("operands", [i \in 1..Len(d.ops) |-> ShownAs(d.ops[i], lab)], o.ops)
                                \o Diff("ends block", B2I(d.ends), o.ends) \o Diff("nesting", d.nest, o.nest))
                  \* bytes that are no instruction; those the disassembler has no name for may be anything
                  ELSE IF d.b[1] \in Opcodes THEN <<>>
                  ELSE Diff("bytes", d.b, o.b) \o Diff("next", d.next, o.next) \o Diff("ends block", 1, o.ends) \o Diff("nesting", 0, o.nest)
                       \o (IF o.mn \in DisMnemonics THEN <<<<"shown as an instruction", o.mn>>>> ELSE <<>>)))
     \o Diff("machine kept", 1, o.kept)
Conforms ==
  k > 0 => LET w == Wrong(Cases[id], Cases[id].shown[k])
           IN w = <<>> \/ (PrintT(<<"MISMATCH", Cases[id].id, Cases[id].shown[k], w>>) /\ FALSE)
=============================================================================
