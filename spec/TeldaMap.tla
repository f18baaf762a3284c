------------------------------ MODULE TeldaMap ------------------------------
(***************************************************************************)
(* The listing of the memory map (system call 0).  A line is               *)
(* <<virtual address, frame address, letters>>: letters the right that     *)
(* each of U X W R has, "!" after a right that the first level table does  *)
(* not grant, small where only the first level grants it.                  *)
(* Without translation there is one line, <<-1, -1, letters>>.             *)
(***************************************************************************)
EXTENDS TeldaLoad

Right(e1, e2, flag, big, small) ==
  IF Has(e2, flag) THEN IF Has(e1, flag) THEN big ELSE Append(big, "!")
  ELSE IF Has(e1, flag) THEN small ELSE <<>>
Letters(e1, e2) ==
  Right(e1, e2, UFlag, <<"U", " ">>, <<"u", " ">>) \o Right(e1, e2, XFlag, <<"X">>, <<"x">>)
  \o Right(e1, e2, WFlag, <<"W">>, <<"w">>) \o Right(e1, e2, RFlag, <<"R">>, <<"r">>)
MapLine(m, rp, p) ==
  LET e1 == E1(m, rp, p)
      e2 == E2(m, e1, p)
  IN <<128 * p, EntryFrame(e2), Letters(e1, e2)>>
Ascending(S) == SetToSortSeq(S, LAMBDA a, b: a < b)
Listing(c, m) ==
  IF ~c.vm THEN << <<-1, -1, <<"U", " ", "X", "W", "R">>>> >>
  ELSE LET ps == Ascending(MappedPages(m, c.r[RP]))
       IN [i \in 1..Len(ps) |-> MapLine(m, c.r[RP], ps[i])]

-----------------------------------------------------------------------------
(* What the letters say, for the theorem that they say it right: the rights *)
(* that both levels grant.                                                  *)
Granted(letters) ==
  {q \in {"U", "X", "W", "R"} :
     \E i \in 1..Len(letters) : letters[i] = q
        /\ LET j == IF q = "U" THEN i + 2 ELSE i + 1
           IN j > Len(letters) \/ letters[j] # "!"}
(* user code can use a page in exactly the ways listed *)
SaysTheTruth(c, m) ==
  LET l == Listing(c, m)
      rp == c.r[RP]
  IN c.vm =>
     /\ \A i \in 1..Len(l) :
          LET g == Granted(l[i][3])
          IN UserPerms(m, rp, l[i][1] \div 128) = IF "U" \in g THEN g \ {"U"} ELSE {}
     /\ \A p \in Pages : (\A i \in 1..Len(l) : l[i][1] # 128 * p) => UserPerms(m, rp, p) = {}

-----------------------------------------------------------------------------
(* the listing a loaded program gets; frames are the loader's business, but *)
(* no two pages have the same                                               *)
UserLine(line) == "U" \in Granted(line[3])
PermsShown(line) == Granted(line[3]) \ {"U"}
ShowsObject(obj, l) ==
  LET at == [i \in 1..Len(l) |-> l[i][1] \div 128]
  IN /\ \A i \in 1..Len(l) : l[i][1] = 128 * at[i] /\ UserLine(l[i]) /\ l[i][2] >= RomEnd
     /\ \A i, j \in 1..Len(l) : i < j => at[i] < at[j] /\ l[i][2] # l[j][2]
     /\ \A i \in 1..Len(l) : PagePerms(obj, at[i]) \subseteq PermsShown(l[i]) /\ PermsShown(l[i]) \subseteq AllowedPerms(obj, at[i])
     /\ {p \in Pages : PagePerms(obj, p) # {}} \subseteq {at[i] : i \in 1..Len(l)}
=============================================================================
