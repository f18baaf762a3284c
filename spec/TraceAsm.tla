------------------------------ MODULE TraceAsm ------------------------------
(***************************************************************************)
(* Validation of what the assembler made of source programs.  A behaviour  *)
(* assembles one program line by line; when it has come to the end, what   *)
(* the tool wrote and reported must be what the specification came to.     *)
(***************************************************************************)
EXTENDS TeldaAsm, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, a, stack
vars == <<id, a, stack>>
Missing(cs) == FileAt(cs.files, cs.main) = 0
Init ==
  /\ id \in 1..Len(Cases)
  /\ a = IF Missing(Cases[id]) THEN AddFault(AsmStart, <<Cases[id].main, 0>>) ELSE AsmStart
  /\ stack = IF Missing(Cases[id]) THEN <<>> ELSE StackStart(Cases[id].main, Cases[id].files)
Step ==
  /\ stack # <<>>
  /\ LET n == AsmStep(a, stack, Cases[id].files) IN a' = n.a /\ stack' = n.stack
  /\ id' = id
Spec == Init /\ [][Step]_vars

done == stack = <<>>
Want == Finish(a, Cases[id].main)
Verdict(cs, f) == f = <<>> \/ (PrintT(<<"MISMATCH", cs.id, f>>) /\ FALSE)
IsObj(cs) == "segs" \in DOMAIN cs.out
Locs(cs) == {<<cs.errs[i][1], cs.errs[i][2]>> : i \in 1..Len(cs.errs)}
Mentions(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p

(* objects up to the order of symbols and relocations *)
SegSet(o) == {o.segs[i] : i \in 1..Len(o.segs)}
SymBag(o) == {<<i, o.syms[i]>> : i \in 1..Len(o.syms)}
SymSet(o) == {o.syms[i] : i \in 1..Len(o.syms)}
RelNamed(o, i) ==
  <<o.rel[i][1], o.rel[i][2], IF o.rel[i][3] < Len(o.syms) THEN o.syms[o.rel[i][3] + 1] ELSE <<"no symbol">>>>
RelSet(o) == {RelNamed(o, i) : i \in 1..Len(o.rel)}
Clip(s) == IF Len(s) > 60 THEN SubSeq(s, 1, 60) ELSE s
ClipSegs(ss) == {<<s[1], s[2], Len(s[3]), Clip(s[3])>> : s \in ss}
(* byte for byte the first difference of two sets of segments *)
SegDiff(got, want) ==
  LET g == SegSet(got) \ SegSet(want)
      w == SegSet(want) \ SegSet(got)
  IN IF \E x \in g, y \in w : x[1] = y[1] /\ x[2] = y[2] /\ Len(x[3]) = Len(y[3])
     THEN LET x == CHOOSE x \in g : \E y \in w : x[1] = y[1] /\ x[2] = y[2] /\ Len(x[3]) = Len(y[3])
              y == CHOOSE y \in w : x[1] = y[1] /\ x[2] = y[2] /\ Len(x[3]) = Len(y[3])
              p == Min({i \in 1..Len(x[3]) : x[3][i] # y[3][i]})
          IN <<"segment", x[1], "at offset", p - 1, "got", Clip(SubSeq(x[3], p, Len(x[3]))), "want", Clip(SubSeq(y[3], p, Len(y[3])))>>
     ELSE <<"segments", ClipSegs(g), "want", ClipSegs(w)>>
(* places whose content is a label's value *)
UsePlaces == {<<a.uses[i][1], a.uses[i][2] + k>> : i \in 1..Len(a.uses), k \in {0, 1}}

Accepted(cs, w) ==
  IF Len(cs.errs) > 0 THEN <<"faultless source is faulted", cs.errs[1][2], cs.errs[1][3]>>
  ELSE IF ~IsObj(cs) THEN <<"no object of faultless source", cs.status>>
  ELSE IF cs.status > 0 THEN <<"failure status", cs.status>> ELSE <<>>

(* the bytes of instructions and data, apart from label values *)
CodeFault(cs) ==
  LET w == Want
      strip(o) == {<<o.segs[i][1], [j \in 1..Len(o.segs[i][3]) |->
                      IF <<o.segs[i][1], j - 1>> \in UsePlaces THEN -1 ELSE o.segs[i][3][j]]>> : i \in 1..Len(o.segs)}
      x == Accepted(cs, w)
  IN IF ~w.ok \/ ~Fits(w.obj) THEN <<>>
     ELSE IF x # <<>> THEN x
     ELSE IF strip(cs.out) # strip(w.obj) THEN SegDiff(cs.out, w.obj) ELSE <<>>
Encoded == done => Verdict(Cases[id], CodeFault(Cases[id]))

(* everything the object says *)
ObjectFault(cs) ==
  LET w == Want
      x == Accepted(cs, w)
  IN IF ~w.ok \/ ~Fits(w.obj) THEN <<>>
     ELSE IF x # <<>> THEN x
     ELSE IF cs.out.entry # w.obj.entry THEN <<"entry", cs.out.entry, "want", w.obj.entry>>
     ELSE IF SegSet(cs.out) # SegSet(w.obj) \/ Len(cs.out.segs) # Len(w.obj.segs) THEN SegDiff(cs.out, w.obj)
     ELSE IF SymSet(cs.out) # SymSet(w.obj) \/ Len(cs.out.syms) # Len(w.obj.syms)
     THEN <<"symbols", SymSet(cs.out) \ SymSet(w.obj), "want", SymSet(w.obj) \ SymSet(cs.out), Len(cs.out.syms)>>
     ELSE IF RelSet(cs.out) # RelSet(w.obj) \/ Len(cs.out.rel) # Len(w.obj.rel)
     THEN <<"relocations", RelSet(cs.out) \ RelSet(w.obj), "want", RelSet(w.obj) \ RelSet(cs.out), Len(cs.out.rel)>>
     ELSE IF cs.out.flags # <<>> \/ cs.out.stack # <<>> \/ cs.out.heap # <<>> THEN <<"flags, stack or heap size">>
     ELSE <<>>
ObjectRight == done => Verdict(Cases[id], ObjectFault(Cases[id]))
(* what the specification comes to is faithful by a definition that does not assemble *)
SpecFaithful == done => LET w == Want IN w.ok => Consistent(w.obj)

DiagnosisFault(cs) ==
  LET w == Want
      x == Accepted(cs, w)
  IN IF w.ok /\ Fits(w.obj) THEN x
     ELSE IF cs.status = 0 THEN <<"success was reported for faulty source">>
     ELSE IF IsObj(cs) \/ (~w.ok /\ cs.made = 1) THEN <<"an object was written for faulty source">>
     ELSE IF w.ok THEN <<>>
     ELSE IF ~(w.faults \subseteq Locs(cs)) THEN <<"faults not reported", w.faults \ Locs(cs)>>
     ELSE IF ~w.dead /\ ~(Locs(cs) \subseteq w.faults) THEN <<"lines without faults reported", Locs(cs) \ w.faults>>
     ELSE IF \E n \in w.names : \A i \in 1..Len(cs.errs) : ~(cs.errs[i][2] = 0 /\ Mentions(cs.errs[i][3], n))
     THEN <<"symbol not named", w.names>>
     ELSE <<>>
Diagnosed == done => Verdict(Cases[id], DiagnosisFault(Cases[id]))

(* the warnings about a faultless program, in order *)
WarnedOf(cs) ==
  IF ~Want.ok \/ ~Fits(Want.obj) THEN <<>>
  ELSE IF cs.warns # a.warns THEN <<"warnings", cs.warns, "want", a.warns>> ELSE <<>>
Warned == done => Verdict(Cases[id], WarnedOf(Cases[id]))
(* while assembling *)
Sound ==
  /\ \A i \in 1..Len(a.syms) : a.syms[i].def # <<>> => a.syms[i].def[2] <= Len(a.segs[a.syms[i].def[1]].b)
  /\ \A i \in 1..Len(a.uses) : a.uses[i][2] + 2 <= Len(a.segs[a.uses[i][1]].b) /\ a.uses[i][3] <= Len(a.syms)
  /\ a.entry # <<>> => a.entry[2] <= Len(a.segs[a.entry[1]].b)
=============================================================================
