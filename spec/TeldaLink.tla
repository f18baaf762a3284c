------------------------------ MODULE TeldaLink ------------------------------
(***************************************************************************)
(* The linker: which objects take part (Participants), and what comes out  *)
(* of linking a sequence of objects (Link), as a definition in terms of    *)
(* the inputs rather than as the passes over them the tool makes.          *)
(* Objects are records as in TeldaObj.                                     *)
(*                                                                         *)
(* Options: align, exec and strip (0 or 1), entry: <<>>, <<"addr", a>>,    *)
(* <<"sym", name>> or <<"bad">>.                                           *)
(***************************************************************************)
EXTENDS TeldaObj

SegOrder == <<0, 16, 24, 32, 112, 255>>
Unbd == 255
IoEnd == 128

SegIn(o, st) ==
  LET at == {i \in 1..Len(o.segs) : o.segs[i][1] = st} IN IF at = {} THEN 0 ELSE Min(at)
HasSeg(o, st) == SegIn(o, st) # 0
SegBytesOf(o, st) == IF HasSeg(o, st) THEN o.segs[SegIn(o, st)][3] ELSE <<>>
OldStart(o, st) == IF HasSeg(o, st) THEN o.segs[SegIn(o, st)][2] ELSE 0

-----------------------------------------------------------------------------
(* Layout *)
Total(objs, st) == FoldLeft(LAMBDA acc, o: acc + Len(SegBytesOf(o, st)), 0, objs)
Present(objs, st) == \E k \in 1..Len(objs) : HasSeg(objs[k], st)
Up(n, align) == align * ((n + align - 1) \div align)
(* [ok, at]: start of each segment, -1 if there is none *)
Layout(objs, align) ==
  LET zero == Total(objs, 0)
      step(acc, st) ==
        IF st = 0 \/ ~Present(objs, st) THEN acc
        ELSE LET start == Up(acc.last, align)
                 end == start + Total(objs, st)
             IN [ok |-> acc.ok /\ end <= 65535, last |-> end, at |-> [acc.at EXCEPT ![st] = start]]
      none == [st \in SegNumbers |-> -1]
  IN FoldLeft(step, [ok |-> zero <= 65535, last |-> Max2(zero, IoEnd),
                     at |-> IF Present(objs, 0) THEN [none EXCEPT ![0] = 0] ELSE none], SegOrder)
(* where the piece of a segment that comes from object k starts *)
Piece(objs, lay, k, st) ==
  (IF lay.at[st] = -1 THEN 0 ELSE lay.at[st]) + Total(SubSeq(objs, 1, k - 1), st)
Moved(objs, lay, k, st, a) == M16((a - OldStart(objs[k], st)) + Piece(objs, lay, k, st))

-----------------------------------------------------------------------------
(* Symbols *)
IsGlobal(y) == y[2] = 1
IsBound(y) == y[3] # Unbd
(* all symbols, as <<object, position>> *)
AllSyms(objs) == UNION {{<<k, i>> : i \in 1..Len(objs[k].syms)} : k \in 1..Len(objs)}
Sym(objs, s) == objs[s[1]].syms[s[2]]
Globals(objs) == {Sym(objs, s)[1] : s \in {t \in AllSyms(objs) : IsGlobal(Sym(objs, t))}}
Defs(objs, n) == {s \in AllSyms(objs) : Sym(objs, s)[1] = n /\ IsGlobal(Sym(objs, s)) /\ IsBound(Sym(objs, s))}
Twice(objs) == {n \in Globals(objs) : Cardinality(Defs(objs, n)) > 1}
MovedSym(objs, lay, s) ==
  LET y == Sym(objs, s) IN <<y[1], y[2], y[3], Moved(objs, lay, s[1], y[3], y[4])>>
Nowhere(n) == <<n, 1, Unbd, -1>>
(* what a symbol of an input is in the output; an unbound one has the value -1, for any *)
Resolved(objs, lay, strip, s) ==
  LET y == Sym(objs, s) IN
  IF IsGlobal(y)
  THEN IF Defs(objs, y[1]) = {} THEN Nowhere(y[1])
       ELSE MovedSym(objs, lay, CHOOSE d \in Defs(objs, y[1]) : TRUE)
  ELSE LET m == MovedSym(objs, lay, s)
       IN <<IF strip = 1 THEN <<>> ELSE m[1], 0, m[3], IF IsBound(m) THEN m[4] ELSE -1>>

-----------------------------------------------------------------------------
(* Linking.  The output has a bag of symbols (a function to counts) and a   *)
(* bag of relocations <<segment, place, symbol>>.                           *)
BagOf(seq) == [x \in {seq[i] : i \in 1..Len(seq)} |-> Cardinality({i \in 1..Len(seq) : seq[i] = x})]
EntryOf(objs, lay, opts) ==
  LET with == {k \in 1..Len(objs) : objs[k].entry # <<>>}
      first == Min(with)
      e == objs[first].entry
  IN IF opts.entry # <<>>
     THEN IF opts.entry[1] = "addr" THEN <<0, opts.entry[2]>>
          ELSE IF opts.entry[1] = "sym" /\ Defs(objs, opts.entry[2]) # {}
          THEN LET y == MovedSym(objs, lay, CHOOSE d \in Defs(objs, opts.entry[2]) : TRUE) IN <<y[3], y[4]>>
          ELSE <<"none">>
     ELSE IF with = {} THEN <<>> ELSE <<e[1], Moved(objs, lay, first, e[1], e[2])>>

RelSeq(objs, lay, strip) ==
  LET of(k) == [j \in 1..Len(objs[k].rel) |->
        LET r == objs[k].rel[j]
        IN <<r[1], Moved(objs, lay, k, r[1], r[2]), Resolved(objs, lay, strip, <<k, r[3] + 1>>)>>]
  IN FoldLeft(LAMBDA acc, k: acc \o of(k), <<>>, [k \in 1..Len(objs) |-> k])
(* the places that depend on a symbol without a value are -1 *)
OutBytes(objs, lay, rels, st) ==
  LET plain == FoldLeft(LAMBDA acc, o: acc \o SegBytesOf(o, st), <<>>, objs)
      here == {i \in 1..Len(rels) : rels[i][1] = st}
      val == [p \in {rels[i][2] - lay.at[st] : i \in here} |->
                rels[CHOOSE i \in here : rels[i][2] - lay.at[st] = p][3][4]]
  IN IF here = {} THEN plain
     ELSE [j \in 1..Len(plain) |->
             IF j - 1 \in DOMAIN val THEN (IF val[j - 1] = -1 THEN -1 ELSE Lo(val[j - 1]))
             ELSE IF j - 2 \in DOMAIN val THEN (IF val[j - 2] = -1 THEN -1 ELSE Hi(val[j - 2]))
             ELSE plain[j]]

LinkFault(why) == [ok |-> FALSE, why |-> why]
Link(objs, opts) ==
  LET lay == Layout(objs, opts.align)
      rels == RelSeq(objs, lay, opts.strip)
      entry == EntryOf(objs, lay, opts)
      dangling == {i \in 1..Len(rels) : rels[i][3][3] = Unbd}
      glob == Globals(objs)
      locals == {s \in AllSyms(objs) : ~IsGlobal(Sym(objs, s))}
      resolved == SetToSeq({Resolved(objs, lay, opts.strip, s) : s \in {t \in AllSyms(objs) : IsGlobal(Sym(objs, t))}})
                  \o [i \in 1..Cardinality(locals) |-> Resolved(objs, lay, opts.strip, SetToSeq(locals)[i])]
  IN IF ~lay.ok THEN LinkFault("memory")
     ELSE IF Twice(objs) # {} THEN LinkFault("defined twice")
     ELSE IF entry = <<"none">> THEN LinkFault("start symbol")
     ELSE IF opts.exec = 1 /\ dangling # {} THEN LinkFault("undefined")
     ELSE IF opts.exec = 1 /\ entry = <<>> THEN LinkFault("no entry")
     ELSE [ok |-> TRUE, entry |-> entry,
           segs |-> {<<st, lay.at[st], OutBytes(objs, lay, rels, st)>> : st \in {t \in SegNumbers : lay.at[t] # -1}},
           syms |-> BagOf(resolved), rel |-> BagOf(rels)]

-----------------------------------------------------------------------------
(* Archives: members in the order of the archives given *)
Mentioned(o, n) == \E i \in 1..Len(o.syms) : o.syms[i][1] = n /\ IsGlobal(o.syms[i])
DefinedBy(o, n) == \E i \in 1..Len(o.syms) : o.syms[i][1] = n /\ IsGlobal(o.syms[i]) /\ IsBound(o.syms[i])
GlobalsOf(o) == {o.syms[i][1] : i \in {j \in 1..Len(o.syms) : IsGlobal(o.syms[j])}}
DefinedByAny(objs, n) == \E k \in 1..Len(objs) : DefinedBy(objs[k], n)
Needs(objs, n) == \E k \in 1..Len(objs) : Mentioned(objs[k], n)
Wanted(inputs, chosen, m) ==
  \E n \in GlobalsOf(m) :
    IF DefinedBy(m, n)
    THEN Needs(inputs \o chosen, n) /\ ~DefinedByAny(inputs \o chosen, n)
    ELSE DefinedByAny(inputs, n)
RECURSIVE Choose(_, _, _)
Choose(inputs, chosen, left) ==
  LET want == {i \in 1..Len(left) : Wanted(inputs, chosen, left[i])}
  IN IF want = {} THEN chosen
     ELSE LET i == Min(want)
          IN Choose(inputs, Append(chosen, left[i]), SubSeq(left, 1, i - 1) \o SubSeq(left, i + 1, Len(left)))
Participants(inputs, members) == inputs \o Choose(inputs, <<>>, members)

-----------------------------------------------------------------------------
(* What an object read from a file says, in the same terms *)
View(o) ==
  [ok |-> TRUE, entry |-> o.entry,
   segs |-> {o.segs[i] : i \in 1..Len(o.segs)},
   syms |-> BagOf([i \in 1..Len(o.syms) |->
              IF IsBound(o.syms[i]) THEN o.syms[i] ELSE <<o.syms[i][1], o.syms[i][2], Unbd, -1>>]),
   rel |-> BagOf([i \in 1..Len(o.rel) |->
              LET r == o.rel[i] IN
              <<r[1], r[2], IF r[3] >= Len(o.syms) THEN <<"no symbol">>
                            ELSE LET y == o.syms[r[3] + 1] IN IF IsBound(y) THEN y ELSE <<y[1], y[2], Unbd, -1>>>>])]
(* equal but for the places whose value is not settled *)
SameBytes(got, want) == Len(got) = Len(want) /\ \A i \in 1..Len(want) : want[i] = -1 \/ got[i] = want[i]
SameSegs(got, want) ==
  /\ Cardinality(got) = Cardinality(want)
  /\ \A w \in want : \E g \in got : g[1] = w[1] /\ g[2] = w[2] /\ SameBytes(g[3], w[3])
(* what a program is, apart from its local symbols' names *)
Program(v) ==
  [segs |-> v.segs, entry |-> v.entry,
   globals |-> {y \in DOMAIN v.syms : IsGlobal(y)},
   places |-> {<<r[1], r[2], IF IsGlobal(r[3]) THEN r[3] ELSE <<r[3][3], r[3][4]>>>> : r \in DOMAIN v.rel}]
SameProgram(p, q) ==
  /\ SameSegs(p.segs, q.segs) /\ p.entry = q.entry /\ p.globals = q.globals /\ p.places = q.places

(* a linked program as an object (the order of symbols and relocations is of no consequence) *)
AsObject(l) ==
  LET syms == SetToSeq(DOMAIN l.syms)
      all == FoldLeft(LAMBDA acc, y: acc \o Rep(y, l.syms[y]), <<>>, syms)
      idx(y) == (CHOOSE i \in 1..Len(all) : all[i] = y) - 1
      rels == SetToSeq(DOMAIN l.rel)
      segs == SetToSeq(l.segs)
  IN [off |-> 0, entry |-> l.entry, flags |-> <<>>, stack |-> <<>>, heap |-> <<>>,
      segs |-> [i \in 1..Len(segs) |-> <<segs[i][1], segs[i][2], [j \in 1..Len(segs[i][3]) |-> IF segs[i][3][j] = -1 THEN 0 ELSE segs[i][3][j]]>>],
      syms |-> [i \in 1..Len(all) |-> IF all[i][4] = -1 THEN <<all[i][1], all[i][2], all[i][3], 0>> ELSE all[i]],
      rel |-> [i \in 1..Len(rels) |-> <<rels[i][1], rels[i][2], idx(rels[i][3])>>]]

(* Stripping: what the tool makes of an object; all and force are 0 or 1 *)
StripFails(o, all, force) == all = 1 /\ force = 0 /\ o.entry = <<>>
Stripped(o, all) ==
  IF all = 1 THEN [o EXCEPT !.syms = <<>>, !.rel = <<>>]
  ELSE [o EXCEPT !.syms = [i \in 1..Len(@) |-> IF IsGlobal(@[i]) THEN @[i] ELSE <<<<>>, 0, @[i][3], @[i][4]>>]]
=============================================================================
