------------------------------ MODULE TeldaMem ------------------------------
(***************************************************************************)
(* Physical memory.  Two instances of the same interface:                  *)
(*   "flat"  every address is a RAM byte (what processor-level checks use) *)
(*   "lazy"  the machine's memory map: ports below 0x80, ROM up to 0x7fff, *)
(*           RAM above, 24 bit addresses                                   *)
(* b    sparse RAM contents, 0 where absent                                *)
(* rom  boot image bytes presented from 0x80 on (then zeros)               *)
(* in   bytes that port reads will deliver;  io  port accesses performed   *)
(***************************************************************************)
EXTENDS TeldaBits, TLC

PageSize == 128
RomEnd == 32768
MemTop == 16777216

NewMem(kind, bytes, rom, input) ==
  [k |-> kind, b |-> bytes, rom |-> rom, in |-> input, io |-> <<>>]

RamByte(m, a) == IF a \in DOMAIN m.b THEN m.b[a] ELSE 0

IsPort(m, a) == m.k = "lazy" /\ a < PageSize
IsRom(m, a)  == m.k = "lazy" /\ a >= PageSize /\ a < RomEnd

(* value seen at a by a read that is not a port access *)
MemByte(m, a) ==
  IF IsRom(m, a)
  THEN IF a - PageSize + 1 <= Len(m.rom) THEN m.rom[a - PageSize + 1] ELSE 0
  ELSE RamByte(m, a)

PortValue(m) == IF m.in = <<>> THEN 0 ELSE Head(m.in)

(* read: the value and the memory afterwards (port reads consume input) *)
MemRead(m, a) ==
  IF IsPort(m, a)
  THEN [v |-> PortValue(m),
        m |-> [m EXCEPT !.in = IF m.in = <<>> THEN <<>> ELSE Tail(m.in),
                        !.io = Append(@, <<0, a, PortValue(m)>>)]]
  ELSE [v |-> MemByte(m, a), m |-> m]

MemWrite(m, a, val) ==
  IF IsPort(m, a) THEN [m EXCEPT !.io = Append(@, <<1, a, val>>)]
  ELSE IF IsRom(m, a) THEN m
  ELSE IF a \in DOMAIN m.b THEN [m EXCEPT !.b[a] = val]
  ELSE IF val = 0 THEN m
  ELSE [m EXCEPT !.b = (a :> val) @@ @]
=============================================================================
