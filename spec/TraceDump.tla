----------------------------- MODULE TraceDump -----------------------------
(***************************************************************************)
(* Validation of dumps.  A case is what one run was given, in order, and   *)
(* what it wrote: sections of the readable objects, each with the lines of *)
(* symbols and the items of the disassembly:                               *)
(*   [k |-> "label", name], [k |-> "join", name], [k |-> "data"],          *)
(*   [k |-> "unmapped"], [k |-> "ins", at, b, mn, ops, rel], [k |-> "gap"] *)
(* (the gap between blocks).                                               *)
(***************************************************************************)
EXTENDS TeldaDump, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, done
vars == <<id, done>>
Init == id \in 1..Len(Cases) /\ done = FALSE
Check == ~done /\ done' = TRUE /\ id' = id
Spec == Init /\ [][Check]_vars

RootsOf(cs, obj, names) ==
  IF cs.from = <<>> THEN Roots(obj)
  ELSE {LET here == {j \in 1..Len(names) : names[j] = cs.from[i]} IN (CHOOSE j \in here : \A q \in here : j <= q) - 1 : i \in 1..Len(cs.from)}

NoPlace == -1
(* one item after another: w says where we are, what was shown, what is wrong.
   st: "gap" between blocks, "open" in a block (at w.at), "named" a label must follow, "shut" *)
ItemStep(obj, names, lab, relocs, w, it) ==
  LET name(x) == LabelName(obj, names, x)
      byname == {x \in Ids(obj) : name(x) = it.name}
      x == CHOOSE y \in byname : TRUE
      bad(what) == [w EXCEPT !.bad = IF @ = <<>> THEN <<what, it, "at", w.at, w.st>> ELSE @]
      d == CodeAt(obj, w.at)
      spare == d.known /\ Spare(d.b[1], Tail(d.b)) # 0
      as(o) == IF o[1] = "16" /\ o[2] \in DOMAIN lab THEN <<"name", name(lab[o[2]])>> ELSE ShownAs(o, <<>>)
      rel == {<<r[1], name(r[2])>> : r \in RelocsIn(obj, w.at, d.next)}
  IN IF w.bad # <<>> THEN w
     ELSE CASE it.k = "label" ->
            (IF byname = {} THEN bad("no such label")
             ELSE IF x \in w.seen THEN bad("shown twice")
             ELSE IF w.st = "gap" \/ (w.st = "named" /\ x = lab[w.at])
             THEN [w EXCEPT !.seen = @ \cup {x}, !.st = "open", !.at = Place(obj, x)]
             ELSE bad("label out of place"))
       [] it.k = "join" ->
            (IF w.st = "named" /\ byname # {} /\ x = lab[w.at] /\ x \in w.seen THEN [w EXCEPT !.st = "shut"] ELSE bad("block ends"))
       [] it.k \in {Unmapped, NotCode} ->
            (IF w.st = "open" /\ (d.why = it.k \/ (d.why = Unmapped /\ it.k = NotCode)) THEN [w EXCEPT !.st = "shut"] ELSE bad("not to be fetched"))
       [] it.k = "ins" ->
            (IF w.st # "open" THEN bad("instruction out of place")
             ELSE IF d.why # "" THEN bad("cannot be fetched")
             ELSE IF it.at # w.at \/ it.b # d.b THEN bad(<<"expected", w.at, d.b>>)
             ELSE IF d.known /\ ~spare /\ d.mn # "no such ldi" /\ (it.mn # d.mn \/ it.ops # [i \in 1..Len(d.ops) |-> as(d.ops[i])])
             THEN bad(<<"expected", d.mn, [i \in 1..Len(d.ops) |-> as(d.ops[i])]>>)
             ELSE IF ~d.known /\ it.mn \in DisMnemonics THEN bad("shown as an instruction")
             ELSE IF relocs = 1 /\ ({<<it.rel[i][1], it.rel[i][2]>> : i \in 1..Len(it.rel)} # rel \/ Len(it.rel) # Cardinality(rel))
             THEN bad(<<"expected relocations", rel>>)
             ELSE IF relocs = 0 /\ it.rel # <<>> THEN bad("relocations were not asked for")
             ELSE [w EXCEPT !.at = d.next, !.st = IF d.ends THEN "shut" ELSE IF d.next \in DOMAIN lab THEN "named" ELSE "open"])
       [] it.k = "gap" -> (IF w.st = "shut" THEN [w EXCEPT !.st = "gap"] ELSE bad("block is cut off"))
       [] OTHER -> bad("unknown line")

DisFault(cs, obj, names, items) ==
  LET lab == LabelAt(obj)
      w0 == [at |-> NoPlace, st |-> "gap", seen |-> {}, bad |-> <<>>]
      w == FoldLeft(LAMBDA acc, it: ItemStep(obj, names, lab, cs.relocs, acc, it), w0, items)
      want == Reached(obj, RootsOf(cs, obj, names), FALSE)
      may == Reached(obj, RootsOf(cs, obj, names), TRUE)
  IN IF w.bad # <<>> THEN w.bad
     ELSE IF w.st # "gap" THEN <<"output is cut off">>
     ELSE IF ~(want \subseteq w.seen /\ w.seen \subseteq may) THEN <<"labels visited", {LabelName(obj, names, i) : i \in w.seen \ may}, "expected", {LabelName(obj, names, i) : i \in want \ w.seen}>>
     ELSE <<>>

SectionFault(cs, s, o) ==
  IF s.file # o.file THEN <<"section", s.file, "expected", o.file>>
  ELSE IF cs.syms = 1 /\ s.syms # SymbolLines(o.obj, o.names) THEN <<"symbols", s.syms, "expected", SymbolLines(o.obj, o.names)>>
  ELSE IF cs.syms = 0 /\ s.syms # <<>> THEN <<"symbols were not asked for">>
  ELSE IF cs.dis = 1 THEN DisFault(cs, o.obj, o.names, s.items)
  ELSE IF s.items # <<>> THEN <<"disassembly was not asked for">>
  ELSE <<>>
CaseFault(cs) ==
  IF cs.status \notin {0, 1} THEN <<"status", cs.status, cs.err>>
  ELSE IF cs.status # cs.unreadable THEN <<"status", cs.status, "unreadable inputs", cs.unreadable>>
  ELSE IF Len(cs.sections) # Len(cs.objs) THEN <<"sections", [i \in 1..Len(cs.sections) |-> cs.sections[i].file], "expected", Len(cs.objs)>>
  ELSE LET bad == {i \in 1..Len(cs.objs) : SectionFault(cs, cs.sections[i], cs.objs[i]) # <<>>}
       IN IF bad = {} THEN <<>> ELSE LET i == CHOOSE j \in bad : TRUE IN <<cs.objs[i].file, SectionFault(cs, cs.sections[i], cs.objs[i])>>
Conforms == done => LET f == CaseFault(Cases[id]) IN f = <<>> \/ (PrintT(<<"MISMATCH", Cases[id].id, f>>) /\ FALSE)
=============================================================================
