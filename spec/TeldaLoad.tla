----------------------------- MODULE TeldaLoad -----------------------------
(***************************************************************************)
(* Loading a user program: what the address space must look like to the    *)
(* program, stated on the page tables found in memory, and the start of    *)
(* execution.                                                              *)
(*                                                                         *)
(* An object is a record                                                   *)
(*   entry  <<>> or <<segment type, address>>                              *)
(*   flags  <<>> or <<1 if text is readable>>                              *)
(*   stack, heap  <<>> or <<size>>                                         *)
(*   segs   sequence of <<type, start, bytes>>, one per type, by type      *)
(*   syms   sequence of <<name, global?, type, value>>                     *)
(*   rel    sequence of <<type, place, symbol index (from 0)>>             *)
(***************************************************************************)
EXTENDS TeldaCpu, FiniteSets

SZero == 0
SData == 16
SRoData == 24
SText == 32
SHeap == 112
SUnknown == 255
SegTypes == {SZero, SData, SRoData, SText, SHeap, SUnknown}

Opt(o, default) == IF o = <<>> THEN default ELSE o[1]
ReadableText(obj) == Opt(obj.flags, 0) = 1
HeapSize(obj) == Opt(obj.heap, 1024)
StackSize(obj) == Opt(obj.stack, 384)

SegPerms(obj, t) ==
  CASE t = SText -> IF ReadableText(obj) THEN {"X", "R"} ELSE {"X"}
    [] t = SRoData -> {"R"}
    [] t \in {SData, SHeap} -> {"R", "W"}
    [] OTHER -> {"R", "W", "X"}

(* <<first address, address after the last, permissions>> *)
SegAreas(obj) ==
  [i \in 1..Len(obj.segs) |->
     LET s == obj.segs[i]
         size == IF s[1] = SHeap THEN Max2(HeapSize(obj), Len(s[3])) ELSE Len(s[3])
     IN <<s[2], Min2(s[2] + size, 65536), SegPerms(obj, s[1])>>]
StackArea(obj) == <<65536 - StackSize(obj), 65536, {"R", "W"}>>
Areas(obj) == Append(SegAreas(obj), StackArea(obj))

(* the program fits: segments end inside the address space *)
Loadable(obj) == \A i \in 1..Len(obj.segs) : obj.segs[i][2] + Len(obj.segs[i][3]) <= 65536

OnPage(area, p) == area[1] < area[2] /\ area[1] < 128 * (p + 1) /\ area[2] > 128 * p
PagePerms(obj, p) ==
  LET ar == Areas(obj) IN UNION {ar[i][3] : i \in {j \in 1..Len(ar) : OnPage(ar[j], p)}}
(* a segment without bytes may also get the page its address is on *)
EmptyPerms(obj, p) ==
  UNION {SegPerms(obj, obj.segs[i][1]) :
           i \in {j \in 1..Len(obj.segs) : Len(obj.segs[j][3]) = 0 /\ obj.segs[j][2] \div 128 = p}}
AllowedPerms(obj, p) == PagePerms(obj, p) \cup EmptyPerms(obj, p)
Mapped(obj, p) == AllowedPerms(obj, p) # {}

-----------------------------------------------------------------------------
(* what the page tables in memory m, reached from rp, say about page p *)
E1(m, rp, p) == ReadEntry(m, rp + 4 * (p \div 32)).e
E2(m, e1, p) == ReadEntry(m, EntryFrame(e1) + 4 * (p % 32)).e
Grants(e, perm) == Has(e, PFlag) /\ Has(e, UFlag) /\ Has(e, ModeFlag(perm))
UserPerms(m, rp, p) ==
  LET e1 == E1(m, rp, p)
  IN IF ~Has(e1, PFlag) THEN {}
     ELSE LET e2 == E2(m, e1, p) IN {q \in {"R", "W", "X"} : Grants(e1, q) /\ Grants(e2, q)}
PresentAt(m, rp, p) == LET e1 == E1(m, rp, p) IN Has(e1, PFlag) /\ Has(E2(m, e1, p), PFlag)
FrameAt(m, rp, p) == EntryFrame(E2(m, E1(m, rp, p), p))

Pages == 0..511
UserByte(m, rp, a) == MemByte(m, FrameAt(m, rp, a \div 128) + (a % 128))

TableFrames(m, rp) ==
  {128 * (rp \div 128)} \cup
  {EntryFrame(E1(m, rp, 32 * i)) : i \in {j \in 0..15 : Has(E1(m, rp, 32 * j), PFlag)}}
MappedPages(m, rp) == {p \in Pages : PresentAt(m, rp, p)}
FramesUsed(m, rp) == {FrameAt(m, rp, p) : p \in MappedPages(m, rp)}

-----------------------------------------------------------------------------
(* the requirements; each yields a description of what is wrong, or <<>> *)
BadPerms(obj, m, rp) ==
  LET bad == {p \in Pages : LET u == UserPerms(m, rp, p)
                             IN ~(PagePerms(obj, p) \subseteq u /\ u \subseteq AllowedPerms(obj, p))}
  IN IF bad = {} THEN <<>>
     ELSE LET p == CHOOSE q \in bad : \A s \in bad : q <= s
          IN <<"page", p, "expected permissions", PagePerms(obj, p), "observed", UserPerms(m, rp, p)>>
BadExtra(obj, m, rp) ==
  LET bad == {p \in Pages : PresentAt(m, rp, p) /\ ~Mapped(obj, p)}
  IN IF bad = {} THEN <<>> ELSE <<"mapped without need", bad>>
BadShared(m, rp) ==
  LET mp == MappedPages(m, rp)
      tf == TableFrames(m, rp)
  IN IF Cardinality(FramesUsed(m, rp)) # Cardinality(mp) THEN <<"two pages share a frame", mp>>
     ELSE IF FramesUsed(m, rp) \cap tf # {} THEN <<"a page table is mapped", FramesUsed(m, rp) \cap tf>>
     ELSE IF \E f \in FramesUsed(m, rp) \cup tf : f < RomEnd THEN <<"a frame is not RAM">>
     ELSE <<>>
BadContent(obj, m, rp) ==
  LET places == UNION {{<<i, j>> : j \in 1..Len(obj.segs[i][3])} : i \in 1..Len(obj.segs)}
      bad == {q \in places : UserByte(m, rp, obj.segs[q[1]][2] + q[2] - 1) # obj.segs[q[1]][3][q[2]]}
  IN IF bad = {} THEN <<>>
     ELSE LET q == CHOOSE x \in bad : TRUE
          IN <<"byte at", obj.segs[q[1]][2] + q[2] - 1, "expected", obj.segs[q[1]][3][q[2]],
               "observed", UserByte(m, rp, obj.segs[q[1]][2] + q[2] - 1)>>
BadStart(obj, c) ==
  IF obj.entry # <<>> /\ c.pc # obj.entry[2] THEN <<"starts at", c.pc, "expected", obj.entry[2]>>
  ELSE IF ~(c.um /\ c.vm) \/ c.tr THEN <<"starts with flags", FlagWord(c)>>
  ELSE IF c.r[RH] # 0 THEN <<"starts with a trap handler", c.r[RH]>>
  ELSE IF c.r[RS] # 65535 THEN <<"starts with stack pointer", c.r[RS]>>
  ELSE <<>>

LoadFault(obj, c, m) ==
  LET rp == c.r[RP]
      a == BadStart(obj, c)
      b == BadPerms(obj, m, rp)
      e == BadExtra(obj, m, rp)
      s == BadShared(m, rp)
      t == BadContent(obj, m, rp)
  IN IF a # <<>> THEN a ELSE IF b # <<>> THEN b ELSE IF e # <<>> THEN e
     ELSE IF s # <<>> THEN s ELSE t
=============================================================================
