----------------------------- MODULE MCAalv -----------------------------
(***************************************************************************)
(* Every stream of up to two small containers, with every small gap        *)
(* before, between and after them: a reader that opens, leaves and opens   *)
(* again gets each container's sections back, in order, at the place its   *)
(* magic is, and fails after the last.  Names that are prefixes of each    *)
(* other, repeated names, and contents that look like the container's own  *)
(* framing are among them.                                                 *)
(***************************************************************************)
EXTENDS TeldaAalv
CONSTANTS MaxGap, MaxSecond

Tokens == {<<195>>, <<195, 161>>, SubSeq(Magic, 1, 7), <<0>>, <<97, 0, 1, 0, 120>>}
Gaps == LET G[n \in 0..MaxGap] == IF n = 0 THEN {<<>>} ELSE G[n - 1] \cup {g \o t : g \in G[n - 1], t \in Tokens}
        IN G[MaxGap]
Names == {<<97>>, <<97, 98>>}
Contents == {<<>>, <<0>>, Magic, <<97, 0, 0, 0>>}
Secs(n) == UNION {[1..m -> Names \X Contents] : m \in 0..n}

VARIABLES cs, tail, s, n, taken
vars == <<cs, tail, s, n, taken>>
B == Stream(cs, tail)
Init == /\ cs \in UNION {{<<<<g, x>>>> : g \in Gaps, x \in Secs(2)},
                         {<<<<g, x>>, <<h, y>>>> : g \in {<<>>, <<195, 161>>}, x \in Secs(1), h \in Gaps, y \in Secs(MaxSecond)}}
        /\ tail \in {<<>>, <<0>>, SubSeq(Magic, 1, 7)}
        /\ s = NewReader /\ n = 0 /\ taken = <<>>
Opens == /\ n <= Len(cs) /\ ~s.ok
         /\ s' = Open(B, s) /\ n' = n + 1 /\ taken' = <<>> /\ UNCHANGED <<cs, tail>>
(* a section by its name, of which the first is given *)
Takes == /\ s.ok
         /\ \E m \in Names : /\ FirstNamed(s.secs, m) # 0
                             /\ taken' = Append(taken, <<m, Taken(s, m, -1)[2]>>)
                             /\ s' = Take(s, m)
         /\ UNCHANGED <<cs, tail, n>>
Leaves == /\ s.ok /\ s' = Leave(s) /\ UNCHANGED <<cs, tail, n, taken>>
Next == Opens \/ Takes \/ Leaves
Spec == Init /\ [][Next]_vars

Before(i) == Len(Flat([j \in 1..(i - 1) |-> cs[j][1] \o EncodeSections(cs[j][2])])) + Len(cs[i][1])
Of(q, m) == SelectSeq(q, LAMBDA p : p[1] = m)
Inside == n \in 1..Len(cs) /\ s.ok
Placed == Inside => s.off = Before(n) /\ s.end = Before(n) + Len(EncodeSections(cs[n][2]))
AllGot == Inside /\ taken = <<>> => s.secs = cs[n][2]
(* sections of one name come in the order they were written, and none is lost or made *)
InOrder == Inside => \A m \in Names : Of(taken, m) \o Of(s.secs, m) = Of(cs[n][2], m)
NoMore == n > Len(cs) => ~s.ok
Opens1 == n \in 1..Len(cs) /\ ~s.ok => s.at = Before(n) + Len(EncodeSections(cs[n][2])) + 1
=========================================================================
