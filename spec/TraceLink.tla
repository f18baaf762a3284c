------------------------------ MODULE TraceLink ------------------------------
(* Validation of runs of the linker and the strip tool. *)
EXTENDS TeldaLink, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, done
vars == <<id, done>>
Init == id \in 1..Len(Cases) /\ done = FALSE
Check == ~done /\ done' = TRUE /\ id' = id
Spec == Init /\ [][Check]_vars

Verdict(cs, f) == f = <<>> \/ (PrintT(<<"MISMATCH", cs.id, f>>) /\ FALSE)
IsObject(r) == "segs" \in DOMAIN r
Clip(s) == IF Len(s) > 40 THEN SubSeq(s, 1, 40) ELSE s
Short(ss) == {<<s[1], s[2], Len(s[3]), Clip(s[3])>> : s \in ss}
SegDiff(got, want) ==
  LET w == {x \in want : ~\E g \in got : g[1] = x[1] /\ g[2] = x[2] /\ SameBytes(g[3], x[3])}
      near == {x \in w : \E g \in got : g[1] = x[1] /\ g[2] = x[2] /\ Len(g[3]) = Len(x[3])}
  IN IF near # {}
     THEN LET x == CHOOSE x \in near : TRUE
              g == CHOOSE g \in got : g[1] = x[1] /\ g[2] = x[2] /\ Len(g[3]) = Len(x[3])
              p == Min({i \in 1..Len(x[3]) : x[3][i] # -1 /\ x[3][i] # g[3][i]})
          IN <<"segment", x[1], "start", x[2], "offset", p - 1, "got", Clip(SubSeq(g[3], p, Len(g[3]))), "want", Clip(SubSeq(x[3], p, Len(x[3])))>>
     ELSE <<"segments", Short(got), "want", Short(want)>>
BagDiff(g, w) == {<<x, g[x]>> : x \in {y \in DOMAIN g : y \notin DOMAIN w \/ w[y] # g[y]}}

(* what a run left against what it should have: out is what was read from the output file *)
OutFault(cs, want) ==
  IF ~want.ok
  THEN IF cs.status = 0 THEN <<"success was reported", want.why>>
       ELSE IF cs.made = 1 THEN <<"output was written", want.why>> ELSE <<>>
  ELSE IF cs.status # 0 THEN <<"failure was reported", cs.status, cs.err>>
  ELSE IF ~IsObject(cs.out) THEN <<"the output is not an object">>
  ELSE LET v == View(cs.out) IN
       IF v.entry # want.entry THEN <<"entry", v.entry, "want", want.entry>>
       ELSE IF Len(cs.out.segs) # Cardinality(v.segs) THEN <<"a segment twice">>
       ELSE IF ~SameSegs(v.segs, want.segs) THEN SegDiff(v.segs, want.segs)
       ELSE IF v.syms # want.syms THEN <<"symbols", BagDiff(v.syms, want.syms), "want", BagDiff(want.syms, v.syms)>>
       ELSE IF v.rel # want.rel THEN <<"relocations", BagDiff(v.rel, want.rel), "want", BagDiff(want.rel, v.rel)>>
       ELSE <<>>
All(cs) == Participants(cs.inputs, cs.members)
Linked == done => Verdict(Cases[id], OutFault(Cases[id], Link(All(Cases[id]), Cases[id].opts)))

(* several ways of linking the same inputs: outs are what was read from the last output of each *)
RouteFault1(cs, o) ==
  LET objs == IF o.arch = 0 THEN cs.inputs
              ELSE Participants(SubSeq(cs.inputs, 1, o.arch), SubSeq(cs.inputs, o.arch + 1, Len(cs.inputs)))
      want == Link(objs, cs.opts)
      p == Program(want)
      q == Program(View(o.out))
  IN IF ~want.ok THEN (IF o.status = 0 THEN <<"success", o.route, want.why>> ELSE <<>>)
     ELSE IF o.status # 0 THEN <<"failure", o.route, o.status>>
     ELSE IF ~IsObject(o.out) THEN <<"no object", o.route>>
     ELSE IF SameProgram(q, p) THEN <<>>
     ELSE <<"another program", o.route,
            IF q.entry # p.entry THEN <<"entry", q.entry, p.entry>>
            ELSE IF ~SameSegs(q.segs, p.segs) THEN SegDiff(q.segs, p.segs)
            ELSE IF q.globals # p.globals THEN <<"globals", q.globals \ p.globals, "want", p.globals \ q.globals>>
            ELSE <<"places", q.places \ p.places, "want", p.places \ q.places>>>>
RouteFault(cs) ==
  LET bad == {i \in 1..Len(cs.outs) : RouteFault1(cs, cs.outs[i]) # <<>>}
  IN IF bad = {} THEN <<>> ELSE RouteFault1(cs, cs.outs[Min(bad)])
Routes == done => Verdict(Cases[id], RouteFault(Cases[id]))

(* the specification itself: two stages are one *)
Plainly(opts) == [opts EXCEPT !.exec = 0, !.entry = <<>>]
StageTheorem ==
  done => LET cs == Cases[id]
              objs == All(cs)
              want == Link(objs, cs.opts)
          IN \A k \in 0..Len(objs) : \A st \in {0, 1} :
               LET pre == Link(SubSeq(objs, 1, k), [Plainly(cs.opts) EXCEPT !.strip = st])
                   post == Link(SubSeq(objs, k + 1, Len(objs)), Plainly(cs.opts))
                   two == Link((IF k = 0 THEN <<>> ELSE <<AsObject(pre)>>) \o SubSeq(objs, k + 1, Len(objs)), cs.opts)
                   tail == Link(SubSeq(objs, 1, k) \o (IF k = Len(objs) THEN <<>> ELSE <<AsObject(post)>>), cs.opts)
               IN (want.ok => /\ pre.ok /\ two.ok /\ SameProgram(Program(two), Program(want))
                              /\ post.ok /\ tail.ok /\ SameProgram(Program(tail), Program(want)))

StripFault(cs) ==
  IF StripFails(cs.inp, cs.all, cs.force)
  THEN IF cs.status = 0 THEN <<"success was reported">>
       ELSE IF cs.after # cs.before THEN <<"the refused file was changed">> ELSE <<>>
  ELSE IF cs.status # 0 THEN <<"failure", cs.status, cs.err>>
  ELSE IF ~IsObject(cs.out) THEN <<"the file is no object any more">>
  ELSE IF SubSeq(cs.after, 1, cs.inp.off) # SubSeq(cs.before, 1, cs.inp.off) THEN <<"the prefix was changed">>
  ELSE IF ~SameFileObject(cs.out, Stripped(cs.inp, cs.all)) \/ cs.out.off # cs.inp.off
  THEN <<"the object", cs.out, "want", Stripped(cs.inp, cs.all)>>
  ELSE LET s == ReadSections(cs.after, cs.inp.off + 9, <<>>)
       IN IF ~s.ok \/ s.end # Len(cs.after) + 1 THEN <<"bytes after the end of the object">> ELSE <<>>
StrippedRight == done => Verdict(Cases[id], StripFault(Cases[id]))
=============================================================================
