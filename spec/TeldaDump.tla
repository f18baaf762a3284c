----------------------------- MODULE TeldaDump -----------------------------
(***************************************************************************)
(* The object dump: the table of symbols, and the disassembly, which goes  *)
(* from the entry point and the global symbols to everything they reach.   *)
(*                                                                         *)
(* Symbols are known by their number (from 0); the entry point counts as   *)
(* one more after the last.  names are the symbols' names as text.         *)
(***************************************************************************)
EXTENDS TeldaDis, TeldaLoad

-----------------------------------------------------------------------------
(* the address space of the loaded object, as the program may execute it.  *)
(* (An address that is not mapped may be shown as data instead: a table    *)
(* for pages which are all not code says so already.)                      *)
ByteIn(obj, a) ==
  LET at == {i \in 1..Len(obj.segs) : obj.segs[i][2] <= a /\ a < obj.segs[i][2] + Len(obj.segs[i][3])}
  IN IF at = {} THEN 0 ELSE LET s == obj.segs[CHOOSE i \in at : TRUE] IN s[3][a - s[2] + 1]
Unmapped == "unmapped"
NotCode == "data"
FetchFault(obj, a) ==
  LET p == PagePerms(obj, a \div 128) IN IF p = {} THEN Unmapped ELSE IF "X" \in p THEN "" ELSE NotCode

(* the instruction at a: [why] if it cannot be fetched, or as from DisAt *)
CodeAt(obj, a) ==
  LET op == ByteIn(obj, a)
      n == IF op \in Shown THEN OperandBytes(Shape(op)) ELSE 0
      faults == {i \in 0..n : FetchFault(obj, M16(a + i)) # ""}
      o == [i \in 1..n |-> ByteIn(obj, M16(a + i))]
      d == Decoded(op, o)
  IN IF FetchFault(obj, a) # "" THEN [why |-> FetchFault(obj, a)]
     ELSE IF op \notin Shown
     THEN [why |-> "", known |-> FALSE, b |-> <<op>>, next |-> M16(a + 1), mn |-> "", ops |-> <<>>, ends |-> TRUE]
     ELSE IF faults # {} THEN [why |-> FetchFault(obj, M16(a + (CHOOSE i \in faults : \A j \in faults : i <= j)))]
     ELSE [why |-> "", known |-> TRUE, b |-> <<op>> \o o, next |-> M16(a + n + 1), mn |-> d.mn, ops |-> d.ops, ends |-> EndsBlock(d.mn)]

-----------------------------------------------------------------------------
(* Labels *)
EntryId(obj) == Len(obj.syms)
Ids(obj) == 0..(Len(obj.syms) - (IF obj.entry = <<>> THEN 1 ELSE 0))
IsEntry(obj, id) == id = EntryId(obj)
Place(obj, id) == IF IsEntry(obj, id) THEN obj.entry[2] ELSE obj.syms[id + 1][4]
(* the label an address is shown as is the last of those there *)
LabelAt(obj) ==
  [a \in {Place(obj, id) : id \in Ids(obj)} |->
     LET here == {id \in Ids(obj) : Place(obj, id) = a} IN CHOOSE id \in here : \A j \in here : j <= id]
LabelName(obj, names, id) ==
  IF IsEntry(obj, id) THEN ".entry" ELSE IF names[id + 1] = "" THEN "@L" \o ToString(id) ELSE names[id + 1]

(* values in instructions that are not used are of no consequence, but they may be looked up (loose) *)
Wides(d, loose) ==
  {d.ops[i][2] : i \in {j \in 1..Len(d.ops) : d.ops[j][1] = "16"}}
  \cup (IF loose /\ d.known /\ Shape(d.b[1]) = "ldiw" THEN {Wide(d.b[3], d.b[4])} ELSE {})
(* the labels that are met going on from address a: those named by operands and the one run into *)
RECURSIVE MetFrom(_, _, _, _)
MetFrom(obj, lab, a, loose) ==
  LET d == CodeAt(obj, a)
  IN IF d.why # "" THEN {}
     ELSE {lab[w] : w \in Wides(d, loose) \cap DOMAIN lab}
          \cup (IF d.ends THEN {} ELSE IF d.next \in DOMAIN lab THEN {lab[d.next]} ELSE MetFrom(obj, lab, d.next, loose))
RECURSIVE Closure(_, _, _, _, _)
Closure(obj, lab, have, new, loose) ==
  IF new = {} THEN have
  ELSE LET met == UNION {MetFrom(obj, lab, Place(obj, id), loose) : id \in new}
       IN Closure(obj, lab, have \cup new, met \ (have \cup new), loose)
GlobalIds(obj) == {id \in Ids(obj) : ~IsEntry(obj, id) /\ obj.syms[id + 1][2] = 1}
Roots(obj) == GlobalIds(obj) \cup {id \in Ids(obj) : IsEntry(obj, id)}
Reached(obj, roots, loose) == Closure(obj, LabelAt(obj), {}, roots, loose)

(* relocations inside the instruction *)
RelocsIn(obj, a, next) ==
  {<<obj.rel[i][2], obj.rel[i][3]>> : i \in {j \in 1..Len(obj.rel) : M16(obj.rel[j][2] - a) < M16(next - a)}}

(* the lines of the symbol table: <<global?, name, value, where>> *)
SegText == (0 :> "zero") @@ (16 :> "data") @@ (24 :> "rodata") @@ (32 :> "text") @@ (112 :> "heap") @@ (255 :> "UNDEFINED")
SymbolLines(obj, names) ==
  [i \in 1..Len(obj.syms) |-> <<obj.syms[i][2], names[i], obj.syms[i][4], SegText[obj.syms[i][3]]>>]
=============================================================================
