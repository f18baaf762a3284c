------------------------------- MODULE GenObj -------------------------------
(***************************************************************************)
(* Object files produced by the specification, for the library to read:    *)
(* for each given object, its sections in several orders, behind its       *)
(* prefix, with sections of other names in between.                        *)
(***************************************************************************)
EXTENDS TeldaObj, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Other == <<<<110, 111, 116, 101>>, <<1, 0, 2, 95, 0>>>>
Rotated(s, k) == [i \in 1..Len(s) |-> s[1 + ((i - 1 + k) % Len(s))]]
Orders(secs) ==
  {secs, Reverse(secs)} \cup (IF secs = <<>> THEN {} ELSE {Rotated(secs, k) : k \in 1..2})
  \cup {<<Other>> \o secs, secs \o <<Other>>, (IF secs = <<>> THEN secs ELSE <<Head(secs), Other>> \o Tail(secs))}
Files(cs) == {cs.pre \o EncodeSections(q) : q \in Orders(SectionsOf(cs.obj))}
(* Files that are nearly objects: a reserved name that means nothing, a     *)
(* section twice, sections of a wrong size, numbers that are no segment.    *)
Reserved == {<<95>>, <<95, 120>>, <<95, 115, 101, 103, 115>>, <<95, 83, 69, 71>>, <<95, 95>>, <<95, 115, 121, 109>>}
NoSegment == {1, 8, 17, 33, 48, 128, 254}
Put(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
Resized(b) == {Append(b, 0), Append(b, 32)} \cup (IF b = <<>> THEN {} ELSE {SubSeq(b, 1, Len(b) - 1)})
Renumbered(s) ==
  LET at == CASE s[1] = NEntry -> {1} [] s[1] = NSeg -> {3}
              [] s[1] = NReloc -> {(5 * i) - 4 : i \in 1..(Len(s[2]) \div 5)}
              [] s[1] = NSyms -> {i \in 2..(Len(s[2]) - 2) : s[2][i - 1] = 0 /\ ~\E j \in 1..(i - 2) : s[2][j] = 0}
              [] OTHER -> {}
  IN {[s EXCEPT ![2][i] = q] : i \in at, q \in NoSegment}
NearlySections(secs) ==
  {Put(secs, i, <<q, b>>) : i \in {0, Len(secs) \div 2, Len(secs)}, q \in Reserved, b \in {<<>>, <<16, 0, 0>>}}
  \cup {Put(secs, j, secs[i]) : i, j \in 1..Len(secs)}
  \cup UNION {{[secs EXCEPT ![i][2] = b] : b \in Resized(secs[i][2])} : i \in 1..Len(secs)}
  \cup UNION {{[secs EXCEPT ![i] = x] : x \in Renumbered(secs[i])} : i \in 1..Len(secs)}
Nearly(cs) == {cs.pre \o EncodeSections(q) : q \in NearlySections(SectionsOf(cs.obj))}
AllNearly == FlattenSeq([i \in 1..Len(Cases) |->
                     LET fs == SetToSeq(Nearly(Cases[i]))
                     IN [j \in 1..Len(fs) |-> [id |-> Cases[i].id, n |-> j, bytes |-> fs[j]]]])
All == FlattenSeq([i \in 1..Len(Cases) |->
                     LET fs == SetToSeq(Files(Cases[i]))
                     IN [j \in 1..Len(fs) |-> [id |-> Cases[i].id, n |-> j, bytes |-> fs[j]]]])
VARIABLE x
Init == x = 0 /\ ndJsonSerialize(IOEnv.OUT, IF IOEnv.NEARLY = "1" THEN AllNearly ELSE All)
Spec == Init /\ [][UNCHANGED x]_x
(* decoding is the inverse of encoding, whatever the order of the sections *)
DecodingInverts == \A i \in 1..Len(Cases) : \A f \in Files(Cases[i]) :
             LET d == Decode(f) IN d.ok /\ d.end = Len(f) + 1
               /\ SameObject(d.o, Cases[i].obj) /\ d.o.off = Len(Cases[i].pre)
(* reserved names and repetitions are not decoded *)
NearlyFails == \A i \in 1..Len(Cases) :
             LET secs == SectionsOf(Cases[i].obj)
             IN /\ \A j \in 0..Len(secs), q \in Reserved : ~DecodeSections(0, Put(secs, j, <<q, <<>>>>)).ok
                /\ \A j, k \in 1..Len(secs) : secs[j][1] # NSeg => ~DecodeSections(0, Put(secs, k, secs[j])).ok
(* and no strict prefix decodes *)
CutsFail == \A i \in 1..Len(Cases) :
              LET f == Cases[i].pre \o Encode(Cases[i].obj)
              IN Len(f) > 300 \/ \A n \in 0..(Len(f) - 1) : ~Decode(SubSeq(f, 1, n)).ok
=============================================================================
