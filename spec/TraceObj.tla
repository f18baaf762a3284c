------------------------------ MODULE TraceObj ------------------------------
(* Validation of written and read object files and archives. *)
EXTENDS TeldaObj, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, done
vars == <<id, done>>
Init == id \in 1..Len(Cases) /\ done = FALSE
Check == ~done /\ done' = TRUE /\ id' = id
Spec == Init /\ [][Check]_vars

Verdict(cs, f) == f = <<>> \/ (PrintT(<<"MISMATCH", cs.id, f>>) /\ FALSE)
IsObject(r) == "entry" \in DOMAIN r
IsError(r) == "error" \in DOMAIN r
Clip(s) == IF Len(s) > 200 THEN SubSeq(s, 1, 200) ELSE s

(* an object written by the library and read back by it *)
WriteFault(cs) ==
  LET d == Decode(cs.bytes)
      n == Len(cs.pre)
  IN IF cs.wrote = 2 THEN <<"writing did not return">>
     ELSE IF ~Fits(cs.obj)
     THEN IF cs.wrote = 0 THEN <<>> ELSE <<"an object the format cannot hold was written">>
     ELSE IF cs.wrote = 0 THEN <<"writing was refused">>
     ELSE IF SubSeq(cs.bytes, 1, n) # cs.pre THEN <<"the prefix was changed", cs.pre, Clip(SubSeq(cs.bytes, 1, n))>>
     ELSE IF ~IsObject(cs.read) THEN <<"what was written cannot be read">>
     ELSE IF ~SameFileObject(cs.read, cs.obj) THEN <<"another object was read back", cs.read, "written", cs.obj>>
     ELSE IF ~d.ok THEN <<"the file is not in the format", Clip(cs.bytes)>>
     ELSE IF ~SameFileObject(d.o, cs.obj) THEN <<"the file holds another object", d.o, "written", cs.obj>>
     (* section by section, the writer dropped at the end instead of finished *)
     ELSE IF cs.byhand # 1 THEN <<"written section by section it is another object", cs.byhand>>
     ELSE IF d.end # Len(cs.bytes) + 1 THEN <<"bytes after the end of the object">>
     ELSE <<>>
CutFault(cs) ==
  LET bad == {i \in 1..Len(cs.cuts) : cs.cuts[i] # 0}
  IN IF cs.wrote = 1 /\ bad # {} THEN <<"a truncated file was accepted or not survived, cuts", bad>> ELSE <<>>
DamageFault(cs) ==
  IF \E i \in 1..Len(cs.dmg) : cs.dmg[i] = 2 THEN <<"reading a damaged file did not return", Clip(cs.bad)>> ELSE <<>>

RoundTrip == done => Verdict(Cases[id], WriteFault(Cases[id]))
CutsRejected == done => Verdict(Cases[id], CutFault(Cases[id]))
DamageSurvived == done => Verdict(Cases[id], DamageFault(Cases[id]))
Refused ==
  done => LET cs == Cases[id] IN
    Verdict(cs, IF ~Fits(cs.obj) /\ cs.wrote # 0 THEN <<"an object the format cannot hold was written">>
                ELSE IF Fits(cs.obj) /\ cs.wrote # 1 THEN <<"writing was refused">> ELSE <<>>)

(* files made by the specification, read by the library *)
ReadFault(cs) ==
  LET d == Decode(cs.bytes)
  IN IF d.ok
     THEN IF ~IsObject(cs.read) THEN <<"a valid file was not read", cs.read>>
          ELSE IF ~SameFileObject(cs.read, d.o) THEN <<"another object was read", cs.read, "expected", d.o>> ELSE <<>>
     ELSE IF IsError(cs.read) \/ IsObject(cs.read) THEN <<>> ELSE <<"reading did not return">>
(* files that are none: read as the specification reads them, faulty ones refused *)
StrictFault(cs) ==
  LET d == Decode(cs.bytes)
      l == IF d.ok THEN d ELSE DecodeLoosely(cs.bytes)
  IN IF ~IsError(cs.read) /\ ~IsObject(cs.read) THEN <<"reading did not return">>
     ELSE IF ~l.ok THEN IF IsError(cs.read) THEN <<>> ELSE <<"a faulty file was read", Clip(cs.bytes)>>
     ELSE IF ~PlainNames(l.o) THEN <<>>
     ELSE IF IsError(cs.read) THEN IF d.ok THEN <<"a valid file was not read", cs.read>> ELSE <<>>
     ELSE IF ~SameFileObject(cs.read, l.o) THEN <<"another object was read", cs.read, "expected", l.o>> ELSE <<>>
ReadsStrictly == done => Verdict(Cases[id], StrictFault(Cases[id]))
ReadsFormat == done => Verdict(Cases[id], ReadFault(Cases[id]))

(* archives *)
ArchiveFault(cs) ==
  LET d == DecodeArchive(cs.bytes)
      cutbad == {i \in 1..Len(cs.cuts) :
                   LET e == DecodeArchive(SubSeq(cs.bytes, 1, cs.cuts[i][1]))
                   IN cs.cuts[i][3] # (IF e.ok THEN "end" ELSE "error") \/ cs.cuts[i][2] # Len(e.objs)}
  IN IF "files" \in DOMAIN cs /\ cs.bytes # EncodeArchive(cs.files) THEN <<"the archive is not its members' contents in order">>
     ELSE IF (cs.end = "end") # d.ok THEN <<"reading ends with", cs.end>>
     ELSE IF Len(cs.objs) # Len(d.objs) THEN <<"members read", Len(cs.objs), "expected", Len(d.objs)>>
     ELSE IF \E i \in 1..Len(d.objs) : ~SameObject(cs.objs[i], d.objs[i]) THEN <<"a member differs">>
     ELSE IF "want" \in DOMAIN cs /\ (Len(cs.want) # Len(cs.objs) \/ \E i \in 1..Len(cs.want) : ~SameObject(cs.objs[i], cs.want[i]))
     THEN <<"members are not the archived objects">>
     ELSE IF cutbad # {} THEN <<"cut archive", {cs.cuts[i] : i \in cutbad}>>
     ELSE <<>>
ArchivesRead == done => Verdict(Cases[id], ArchiveFault(Cases[id]))
=============================================================================
