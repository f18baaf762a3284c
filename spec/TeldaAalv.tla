---------------------------- MODULE TeldaAalv ----------------------------
(***************************************************************************)
(* The container of sections that objects are files of, for sections of    *)
(* the user's own: what is written, and a reader as a machine that hands   *)
(* sections out by name.  Containers may follow each other in one stream,  *)
(* with anything that is no magic before and between them.                 *)
(*                                                                         *)
(* A reader s is a record                                                  *)
(*   at   where in the stream the next container is looked for             *)
(*   off  where the magic of the present container is                      *)
(*   secs the sections not yet taken, <<name, bytes>> in their order       *)
(*   end  where the container ends                                         *)
(*   ok   whether there is a present container                             *)
(***************************************************************************)
EXTENDS TeldaObj

Named0(n) == n # <<>> /\ \A i \in 1..Len(n) : n[i] # 0
SectionFits(sec) == Named0(sec[1]) /\ Len(sec[2]) <= 65535

(* the stream of containers: each <<gap, sections>> *)
Stream(cs, tail) == Flat([i \in 1..Len(cs) |-> cs[i][1] \o EncodeSections(cs[i][2])]) \o tail

NewReader == [at |-> 1, off |-> 0, secs |-> <<>>, end |-> 0, ok |-> FALSE]
Open(b, s) ==
  LET f == FindMagic(b, s.at)
      r == ReadSections(b, f + 8, <<>>)
  IN IF f = 0 THEN [s EXCEPT !.ok = FALSE]
     ELSE IF ~r.ok THEN [s EXCEPT !.ok = FALSE]
     ELSE [at |-> s.at, off |-> f - 1, secs |-> r.secs, end |-> r.end - 1, ok |-> TRUE]

FirstNamed(secs, n) ==
  LET at == {i \in 1..Len(secs) : secs[i][1] = n} IN IF at = {} THEN 0 ELSE Min(at)
Take(s, n) ==
  LET i == FirstNamed(s.secs, n) IN IF i = 0 THEN s ELSE [s EXCEPT !.secs = RemoveAt(@, i)]
(* count < 0: all there is, otherwise exactly so many bytes *)
Taken(s, n, count) ==
  LET i == FirstNamed(s.secs, n)
      all == s.secs[i][2]
  IN IF i = 0 THEN <<"none">>
     ELSE IF count < 0 THEN <<"ok", all>>
     ELSE IF count > Len(all) THEN <<"err">> ELSE <<"ok", SubSeq(all, 1, count)>>
Leave(s) == [s EXCEPT !.at = s.end + 1, !.ok = FALSE]
==========================================================================
