----------------------------- MODULE TraceRefuse -----------------------------
(***************************************************************************)
(* Validation of tools run on inputs that may not be readable.  An input   *)
(* is [kind, before, after]: kind "file", "none" (nothing there) or "dir", *)
(* and its contents before and after the run.  What must be refused is     *)
(* decided from the contents, by the format; old and new are the contents  *)
(* of the output file before and after (<<-1>>: there is none).            *)
(***************************************************************************)
EXTENDS TeldaLink, Json, IOUtils
T == INSTANCE TeldaTools WITH MaxInputs <- 1, tool <- "", readable <- <<>>, at <- 1, status <- 0, treated <- {}, worked <- FALSE
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, done
Init == id \in 1..Len(Cases) /\ done = FALSE
Spec == Init /\ [][~done /\ done' = TRUE /\ id' = id]_<<id, done>>

(* an object that may lack what the format wants in places where the reader does not look *)
LooseFrom(b, i) ==
  LET at == FindMagic(b, i)
      s == IF at = 0 THEN Error ELSE ReadSections(b, at + 8, <<>>)
      d == IF s.ok THEN DecodeSections(at - 1, [k \in 1..Len(s.secs) |-> Shortened(s.secs[k])]) ELSE Error
  IN IF d.ok THEN [ok |-> TRUE, end |-> s.end] ELSE Error
RECURSIVE LooseMembers(_, _)
LooseMembers(b, i) ==
  LET d == LooseFrom(b, i) IN d.ok /\ (d.end > Len(b) \/ LooseMembers(b, d.end))
NotAnObject(x) == x.kind # "file" \/ ~LooseFrom(x.before, 1).ok
NotAnArchive(x) ==
  x.kind # "file" \/ Len(x.before) < 10 \/ SubSeq(x.before, 1, 10) # ArchiveMagic \/ ~LooseMembers(x.before, 11)
(* the dump takes either *)
NotShown(x) == NotAnObject(x) \/ (x.kind = "file" /\ Len(x.before) >= 10 /\ SubSeq(x.before, 1, 10) = ArchiveMagic /\ NotAnArchive(x))

(* archives are inputs too *)
Readable(cs) ==
  [i \in 1..(Len(cs.ins) + Len(cs.arch)) |->
     IF i > Len(cs.ins) THEN ~NotAnArchive(cs.arch[i - Len(cs.ins)])
     ELSE IF cs.tool = "tobjdump" THEN ~NotShown(cs.ins[i])
     ELSE IF cs.tool = "tstrip" THEN ~NotAnObject(cs.ins[i]) /\ ~(Decode(cs.ins[i].before).ok /\ StripFails(Decode(cs.ins[i].before).o, cs.all, cs.force))
     ELSE ~NotAnObject(cs.ins[i])]
Untouched(xs) == \A i \in 1..Len(xs) : xs[i].after = xs[i].before
StripFault(cs, o) ==
  LET (* what is an object by all rules *)
      certain == {i \in o.treated : Decode(cs.ins[i].before).ok}
      wrong == {i \in certain : LET d == Decode(cs.ins[i].after) IN
                  ~d.ok \/ ~SameFileObject(d.o, Stripped(Decode(cs.ins[i].before).o, cs.all))}
  IN IF \E i \in 1..Len(cs.ins) \ o.treated : cs.ins[i].after # cs.ins[i].before THEN <<"a refused file was changed">>
     ELSE IF o.fails /\ cs.status = 0 THEN <<"success was reported">>
     ELSE IF ~o.fails /\ Cardinality(certain) = Len(cs.ins) /\ cs.status # 0 THEN <<"failure was reported", cs.err>>
     ELSE IF wrong # {} THEN <<"readable files were not stripped", wrong>>
     ELSE <<>>
Fault(cs) ==
  LET o == T!Outcome(cs.tool, Readable(cs)) IN
  IF cs.tool = "tstrip" THEN StripFault(cs, o)
  ELSE IF ~Untouched(cs.ins) \/ ~Untouched(cs.arch) THEN <<"an input was changed">>
  ELSE IF ~o.fails THEN <<>>
  ELSE IF cs.status = 0 THEN <<"success was reported">>
  ELSE IF cs.status \notin 1..100 THEN <<"the tool crashed", cs.status, cs.err>>
  ELSE IF cs.err = "" THEN <<"nothing was said about it">>
  ELSE IF cs.new # cs.old THEN <<"the output file was changed">>
  ELSE IF ~o.works /\ cs.tool # "tl" /\ cs.out # "" THEN <<"something was executed", cs.out>>
  ELSE <<>>
Refuses ==
  done => LET f == Fault(Cases[id]) IN f = <<>> \/ (PrintT(<<"MISMATCH", Cases[id].id, Cases[id].tool, f>>) /\ FALSE)
=============================================================================
