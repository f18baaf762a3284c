------------------------------ MODULE TeldaCpu ------------------------------
(***************************************************************************)
(* The processor: registers, address translation, instruction execution,   *)
(* trap entry and handler return.                                          *)
(*                                                                         *)
(* A processor state c is a record                                         *)
(*   r   <<r1, .., r10, rs, rl, rf, rp, rh>> (wide registers 1..15)        *)
(*   pc  program counter                                                   *)
(*   z s cy v   zero, sign, carry, overflow                                *)
(*   vm um tr rv  virtual memory, user mode, trap, reserved                *)
(*                                                                         *)
(* An execution context x = [c, m, t, val] is the state in the middle of   *)
(* an instruction: t is the trap raised so far (NoTrap if none) and val    *)
(* the value of the last micro-operation.  Micro-operations are composed   *)
(* with Then, which stops at the first trap and so keeps exactly the       *)
(* partial effects the hardware has.                                       *)
(***************************************************************************)
EXTENDS TeldaISA, TeldaMem

NoTrap == -1
RS == 11
RL == 12
RF == 13
RP == 14
RH == 15

Ctx(c, m) == [c |-> c, m |-> m, t |-> NoTrap, val |-> 0]
Fail(x, trap) == [x EXCEPT !.t = trap]
Give(x, value) == [x EXCEPT !.val = value]
Then(x, F(_)) == IF x.t # NoTrap THEN x ELSE F(x)

-----------------------------------------------------------------------------
(* Register file *)

GetB(c, n) ==
  IF n = 0 THEN 0
  ELSE IF n <= 10
       THEN IF n % 2 = 1 THEN Lo(c.r[(n + 1) \div 2]) ELSE Hi(c.r[n \div 2])
       ELSE Lo(c.r[n - 5])

SetB(c, n, b) ==
  IF n = 0 THEN c
  ELSE IF n <= 10
       THEN IF n % 2 = 1
            THEN [c EXCEPT !.r[(n + 1) \div 2] = Wide(b, Hi(@))]
            ELSE [c EXCEPT !.r[n \div 2] = Wide(Lo(@), b)]
       ELSE [c EXCEPT !.r[n - 5] = b]

GetW(c, n) == IF n = 0 THEN 0 ELSE c.r[n]
SetW(c, n, w) == IF n = 0 THEN c ELSE [c EXCEPT !.r[n] = w]

(* rp and rh are out of reach in user mode *)
Guarded(c, n) == c.um /\ n \in {RP, RH}

ReadW(x, n) == IF Guarded(x.c, n) THEN Fail(x, TIllegalOp) ELSE Give(x, GetW(x.c, n))
WriteW(x, n, w) == IF Guarded(x.c, n) THEN Fail(x, TIllegalOp)
                   ELSE [x EXCEPT !.c = SetW(@, n, w)]
WriteB(x, n, b) == [x EXCEPT !.c = SetB(@, n, b)]

FlagWord(c) ==
  128 * B2I(c.z) + 64 * B2I(c.v) + 32 * B2I(c.s) + 16 * B2I(c.cy) +
  8 * B2I(c.vm) + 4 * B2I(c.rv) + 2 * B2I(c.tr) + B2I(c.um)

SetFlagWord(c, w) ==
  [c EXCEPT !.z = BitSet(w, 7), !.v = BitSet(w, 6), !.s = BitSet(w, 5),
            !.cy = BitSet(w, 4), !.vm = BitSet(w, 3), !.rv = BitSet(w, 2),
            !.tr = BitSet(w, 1), !.um = BitSet(w, 0)]

-----------------------------------------------------------------------------
(* Address translation *)

(* an entry is four bytes; frame address = top 17 bits, offset bits zero *)
EntryFrame(e) == 128 * (e[2] \div 128) + 256 * e[3] + 65536 * e[4]
PFlag == 0
RFlag == 1
WFlag == 2
XFlag == 3
DFlag == 4
UFlag == 5
Has(e, flag) == BitSet(e[1], flag)
ModeFlag(mode) == CASE mode = "X" -> XFlag [] mode = "W" -> WFlag [] mode = "R" -> RFlag
ModeTrap(mode) == CASE mode = "X" -> TIllegalExecute [] mode = "W" -> TIllegalWrite
                    [] mode = "R" -> TIllegalRead

ReadEntry(m, a) ==
  LET r0 == MemRead(m, a)
      r1 == MemRead(r0.m, a + 1)
      r2 == MemRead(r1.m, a + 2)
      r3 == MemRead(r2.m, a + 3)
  IN  [e |-> <<r0.v, r1.v, r2.v, r3.v>>, m |-> r3.m]

EntryTrap(e, mode, user, level) ==
  IF ~Has(e, PFlag) THEN (IF level = 1 THEN TL1Fault ELSE TL2Fault)
  ELSE IF user /\ ~Has(e, UFlag) THEN TIllegalOp
  ELSE IF ~Has(e, ModeFlag(mode)) THEN ModeTrap(mode)
  ELSE NoTrap

Vpn1(va) == va \div 4096
Vpn2(va) == (va \div 128) % 32
VOff(va) == va % 128

MarkDirty(m, a, e) == IF Has(e, DFlag) THEN m ELSE MemWrite(m, a, e[1] + 16)

Xlate(x, va, mode) ==
  IF ~x.c.vm THEN Give(x, va)
  ELSE
  LET a1 == x.c.r[RP] + 4 * Vpn1(va)
      e1 == ReadEntry(x.m, a1)
      t1 == EntryTrap(e1.e, mode, x.c.um, 1)
  IN IF t1 # NoTrap THEN Fail([x EXCEPT !.m = e1.m], t1)
     ELSE LET a2 == EntryFrame(e1.e) + 4 * Vpn2(va)
              e2 == ReadEntry(e1.m, a2)
              t2 == EntryTrap(e2.e, mode, x.c.um, 2)
          IN IF t2 # NoTrap THEN Fail([x EXCEPT !.m = e2.m], t2)
             ELSE LET md == IF mode = "W" THEN MarkDirty(MarkDirty(e2.m, a1, e1.e), a2, e2.e)
                            ELSE e2.m
                  IN Give([x EXCEPT !.m = md], EntryFrame(e2.e) + VOff(va))

PhysRead(x, a) == LET r == MemRead(x.m, a) IN [x EXCEPT !.m = r.m, !.val = r.v]
PhysWrite(x, a, b) == [x EXCEPT !.m = MemWrite(@, a, b)]

VRead(x, va) == Then(Xlate(x, va, "R"), LAMBDA y: PhysRead(y, y.val))
VWrite(x, va, b) == Then(Xlate(x, va, "W"), LAMBDA y: PhysWrite(y, y.val, b))

VReadW(x, va) ==
  Then(VRead(x, va), LAMBDA y:
    Then(VRead(y, M16(va + 1)), LAMBDA z: Give(z, Wide(y.val, z.val))))
VWriteW(x, va, w) ==
  Then(VWrite(x, va, Lo(w)), LAMBDA y: VWrite(y, M16(va + 1), Hi(w)))

(* the program counter advances even if the fetch faults *)
Fetch(x) ==
  LET a == x.c.pc
  IN Then(Xlate([x EXCEPT !.c.pc = M16(a + 1)], a, "X"), LAMBDA y: PhysRead(y, y.val))

Fetch1(x) == Then(Fetch(x), LAMBDA y: Give(y, <<y.val>>))
FetchMore(x) == LET have == x.val IN Then(Fetch(x), LAMBDA y: Give(y, Append(have, y.val)))
FetchN(x, n) ==
  CASE n = 0 -> Give(x, <<>>)
    [] n = 1 -> Fetch1(x)
    [] n = 2 -> Then(Fetch1(x), LAMBDA y: FetchMore(y))
    [] n = 3 -> Then(Then(Fetch1(x), LAMBDA y: FetchMore(y)), LAMBDA z: FetchMore(z))

-----------------------------------------------------------------------------
(* Stack *)

PushB(x, b) == LET sp == M16(x.c.r[RS] - 1) IN VWrite([x EXCEPT !.c.r[RS] = sp], sp, b)
PushW(x, w) == LET sp == M16(x.c.r[RS] - 2) IN VWriteW([x EXCEPT !.c.r[RS] = sp], sp, w)
PopB(x) == Then(VRead(x, x.c.r[RS]), LAMBDA y: [y EXCEPT !.c.r[RS] = M16(@ + 1)])
PopW(x) == Then(VReadW(x, x.c.r[RS]), LAMBDA y: [y EXCEPT !.c.r[RS] = M16(@ + 2)])

-----------------------------------------------------------------------------
(* Arithmetic: result and flags of a two operand operation of n bits *)

Sgn(n, x) == IF n = 8 THEN S8(x) ELSE S16(x)
Mod(n) == IF n = 8 THEN 256 ELSE 65536

Asr(n, a, k) == LET sa == Sgn(n, a) IN (sa \div Pow2[k]) % Mod(n)

Alu(n, mn, a, b) ==
  LET M == Mod(n)
      H == M \div 2
      k == b % n
      res == CASE mn = "add" -> (a + b) % M
               [] mn = "sub" -> (a - b) % M
               [] mn = "and" -> a & b
               [] mn = "or"  -> a | b
               [] mn = "xor" -> a ^^ b
               [] mn = "shl" -> IF n = 8 THEN (a * Pow2[k]) % M
                                ELSE ((a % Pow2[16 - k]) * Pow2[k])
               [] mn = "lsr" -> a \div Pow2[k]
               [] mn = "asr" -> Asr(n, a, k)
      sa == Sgn(n, a)
      sb == Sgn(n, b)
      carry == CASE mn = "add" -> a + b >= M [] mn = "sub" -> a < b [] OTHER -> FALSE
      over  == CASE mn = "add" -> sa + sb >= H \/ sa + sb < -H
                 [] mn = "sub" -> sa - sb >= H \/ sa - sb < -H
                 [] OTHER -> FALSE
  IN [res |-> res, z |-> res = 0, s |-> res >= H, cy |-> carry, v |-> over]

Mul(n, a, b) == IF n = 8 THEN [lo |-> (a * b) % 256, hi |-> (a * b) \div 256] ELSE MulW(a, b)

-----------------------------------------------------------------------------
(* Conditions *)

Cond(mn, c) ==
  CASE mn = "jez" -> c.z
    [] mn = "jnz" -> ~c.z
    [] mn = "jlt" -> c.s # c.v
    [] mn = "jle" -> c.s # c.v /\ c.z
    [] mn = "jgt" -> c.s = c.v /\ ~c.z
    [] mn = "jge" -> c.s = c.v
    [] mn = "jo"  -> c.v
    [] mn = "jno" -> ~c.v
    [] mn = "ja"  -> ~c.cy /\ ~c.z
    [] mn = "jae" -> ~c.cy
    [] mn = "jb"  -> c.cy
    [] mn = "jbe" -> c.cy \/ c.z
CondJumps == {"jez", "jnz", "jlt", "jle", "jgt", "jge", "jo", "jno", "ja", "jae", "jb", "jbe"}

-----------------------------------------------------------------------------
(* Saving and restoring the context.  Pushed in this order: program        *)
(* counter, flags, wide registers 1..15.                                   *)

PushRegs(x, flags) ==
  LET start == Then(PushW(x, x.c.pc), LAMBDA y: PushW(y, flags))
  IN FoldLeft(LAMBDA acc, n: Then(acc, LAMBDA y: PushW(y, GetW(y.c, n))),
              start, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15>>)

PopRegs(x) ==
  LET regs == FoldLeft(LAMBDA acc, n:
                 Then(acc, LAMBDA y: Then(PopW(y), LAMBDA z: WriteW(z, n, z.val))),
                 x, <<15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1>>)
      \* flags and program counter are taken together, once all is popped
      fl == Then(regs, LAMBDA y: PopW(y))
      pcx == Then(fl, LAMBDA y: PopW(y))
  IN Then(pcx, LAMBDA y: [y EXCEPT !.c = [SetFlagWord(@, fl.val) EXCEPT !.pc = y.val]])

-----------------------------------------------------------------------------
(* Instructions.  x is the context after the opcode was fetched.           *)

H4(b) == b \div 16
L4(b) == b % 16

ExecAluB(x, mn) ==
  Then(FetchN(x, 2), LAMBDA y:
    LET o == y.val IN
    IF L4(o[2]) # 0 THEN Fail(y, TInvalid)
    ELSE LET q == Alu(8, mn, GetB(y.c, L4(o[1])), GetB(y.c, H4(o[2])))
         IN WriteB([y EXCEPT !.c.z = q.z, !.c.s = q.s, !.c.cy = q.cy, !.c.v = q.v],
                   H4(o[1]), q.res))

ExecAluW(x, mn) ==
  Then(FetchN(x, 2), LAMBDA y:
    LET o == y.val IN
    Then(ReadW(y, L4(o[1])), LAMBDA p: Then(ReadW(p, H4(o[2])), LAMBDA r:
      IF L4(o[2]) # 0 THEN Fail(r, TInvalid)
      ELSE LET q == Alu(16, mn, p.val, r.val)
           IN WriteW([r EXCEPT !.c.z = q.z, !.c.s = q.s, !.c.cy = q.cy, !.c.v = q.v],
                     H4(o[1]), q.res))))

MulFlags(x, n, p) ==
  [x EXCEPT !.c.cy = p.hi # 0, !.c.v = p.hi # 0, !.c.z = p.lo = 0,
            !.c.s = p.lo >= Mod(n) \div 2]

ExecMulDivB(x, mn) ==
  Then(FetchN(x, 2), LAMBDA y:
    LET o == y.val
        a == GetB(y.c, H4(o[2]))
        b == GetB(y.c, L4(o[2]))
    IN IF mn = "mul"
       THEN LET p == Mul(8, a, b)
            IN WriteB(WriteB(MulFlags(y, 8, p), H4(o[1]), p.hi), L4(o[1]), p.lo)
       ELSE IF b = 0 THEN Fail(y, TZeroDiv)
       ELSE WriteB(WriteB(y, H4(o[1]), a \div b), L4(o[1]), a % b))

ExecMulDivW(x, mn) ==
  Then(FetchN(x, 2), LAMBDA y:
    LET o == y.val IN
    Then(ReadW(y, H4(o[2])), LAMBDA pa: Then(ReadW(pa, L4(o[2])), LAMBDA pb:
      LET a == pa.val
          b == pb.val
      IN IF mn = "mul"
         THEN LET p == Mul(16, a, b)
              IN Then(WriteW(MulFlags(pb, 16, p), H4(o[1]), p.hi),
                      LAMBDA q: WriteW(q, L4(o[1]), p.lo))
         ELSE IF b = 0 THEN Fail(pb, TZeroDiv)
         ELSE Then(WriteW(pb, H4(o[1]), a \div b), LAMBDA q: WriteW(q, L4(o[1]), a % b)))))

ExecPush(x, sh) ==
  Then(FetchN(x, 1), LAMBDA y:
    LET o == y.val[1] IN
    IF sh = "B"
    THEN IF L4(o) # 0 THEN Fail(y, TInvalid) ELSE PushB(y, GetB(y.c, H4(o)))
    ELSE Then(ReadW(y, H4(o)), LAMBDA p:
           IF L4(o) # 0 THEN Fail(p, TInvalid) ELSE PushW(p, p.val)))

ExecPop(x, sh) ==
  Then(FetchN(x, 1), LAMBDA y:
    LET o == y.val[1] IN
    IF L4(o) # 0 THEN Fail(y, TInvalid)
    ELSE IF sh = "B" THEN Then(PopB(y), LAMBDA p: WriteB(p, H4(o), p.val))
    ELSE Then(PopW(y), LAMBDA p: WriteW(p, H4(o), p.val)))

ExecCall(x) ==
  Then(FetchN(x, 2), LAMBDA y:
    [y EXCEPT !.c.r[RL] = y.c.pc, !.c.pc = Wide(y.val[1], y.val[2])])

ExecRet(x) ==
  Then(FetchN(x, 1), LAMBDA y:
    [y EXCEPT !.c.r[RS] = M16(@ + y.val[1]), !.c.pc = y.c.r[RL]])

ExecJump(x, mn) ==
  Then(FetchN(x, 2), LAMBDA y:
    IF Cond(mn, y.c) THEN [y EXCEPT !.c.pc = Wide(y.val[1], y.val[2])] ELSE y)

(* effective address of base register b and offset off *)
StoreTo(x, base, off, F(_, _)) ==
  Then(ReadW(x, base), LAMBDA y: F(y, M16(y.val + off)))

ExecStore(x, sh) ==
  CASE sh = "WBi" ->
         Then(FetchN(x, 3), LAMBDA y: LET o == y.val IN
           StoreTo(y, H4(o[1]), Wide(o[2], o[3]), LAMBDA p, a: VWrite(p, a, GetB(p.c, L4(o[1])))))
    [] sh = "WWi" ->
         Then(FetchN(x, 3), LAMBDA y: LET o == y.val IN
           StoreTo(y, H4(o[1]), Wide(o[2], o[3]), LAMBDA p, a:
             Then(ReadW(p, L4(o[1])), LAMBDA q: VWriteW(q, a, q.val))))
    [] sh = "WWB" ->
         Then(FetchN(x, 2), LAMBDA y: LET o == y.val IN
           IF L4(o[2]) # 0 THEN Fail(y, TInvalid)
           ELSE Then(ReadW(y, L4(o[1])), LAMBDA f:
             StoreTo(f, H4(o[1]), f.val, LAMBDA p, a: VWrite(p, a, GetB(p.c, H4(o[2]))))))
    [] sh = "WWW" ->
         Then(FetchN(x, 2), LAMBDA y: LET o == y.val IN
           IF L4(o[2]) # 0 THEN Fail(y, TInvalid)
           ELSE Then(ReadW(y, L4(o[1])), LAMBDA f:
             StoreTo(f, H4(o[1]), f.val, LAMBDA p, a:
               Then(ReadW(p, H4(o[2])), LAMBDA q: VWriteW(q, a, q.val)))))

ExecLoad(x, sh) ==
  CASE sh = "BWi" ->
         Then(FetchN(x, 3), LAMBDA y: LET o == y.val IN
           StoreTo(y, L4(o[1]), Wide(o[2], o[3]), LAMBDA p, a:
             Then(VRead(p, a), LAMBDA q: WriteB(q, H4(o[1]), q.val))))
    [] sh = "WWi" ->
         Then(FetchN(x, 3), LAMBDA y: LET o == y.val IN
           StoreTo(y, L4(o[1]), Wide(o[2], o[3]), LAMBDA p, a:
             Then(VReadW(p, a), LAMBDA q: WriteW(q, H4(o[1]), q.val))))
    [] sh = "BWW" ->
         Then(FetchN(x, 2), LAMBDA y: LET o == y.val IN
           IF L4(o[2]) # 0 THEN Fail(y, TInvalid)
           ELSE Then(ReadW(y, H4(o[2])), LAMBDA f:
             StoreTo(f, L4(o[1]), f.val, LAMBDA p, a:
               Then(VRead(p, a), LAMBDA q: WriteB(q, H4(o[1]), q.val)))))
    [] sh = "WWW" ->
         Then(FetchN(x, 2), LAMBDA y: LET o == y.val IN
           IF L4(o[2]) # 0 THEN Fail(y, TInvalid)
           ELSE Then(ReadW(y, H4(o[2])), LAMBDA f:
             StoreTo(f, L4(o[1]), f.val, LAMBDA p, a:
               Then(VReadW(p, a), LAMBDA q: WriteW(q, H4(o[1]), q.val)))))

ExecLdiB(x) ==
  Then(FetchN(x, 1), LAMBDA y:
    LET o == y.val[1] IN
    IF L4(o) # 0 THEN Fail(y, TInvalid)
    ELSE Then(FetchN(y, 1), LAMBDA z: WriteB(z, H4(o), z.val[1])))

ExecLdiW(x) ==
  Then(FetchN(x, 3), LAMBDA y:
    LET o == y.val
        r == H4(o[1])
        w == Wide(o[2], o[3])
    IN CASE L4(o[1]) = 0 -> WriteW(y, r, w)
         [] L4(o[1]) = 1 -> IF r = 0 THEN [y EXCEPT !.c.pc = w]
                            ELSE Then(ReadW(y, r), LAMBDA p: [p EXCEPT !.c.pc = p.val])
         [] OTHER -> Fail(y, TInvalid))

Privileged == {"usr", "vmon", "vmoff", "pstore", "pload"}

PhysAddr(high, low) == low + 65536 * high

ExecPriv(x, mn) ==
  IF x.c.um THEN Fail(x, TIllegalOp)
  ELSE CASE mn = "usr"   -> [x EXCEPT !.c.um = TRUE]
         [] mn = "vmon"  -> [x EXCEPT !.c.vm = TRUE]
         [] mn = "vmoff" -> [x EXCEPT !.c.vm = FALSE]
         [] mn = "pstore" ->
              Then(FetchN(x, 2), LAMBDA y: LET o == y.val IN
                IF L4(o[2]) # 0 THEN Fail(y, TInvalid)
                ELSE PhysWrite(y, PhysAddr(GetB(y.c, H4(o[1])), GetW(y.c, L4(o[1]))),
                               GetB(y.c, H4(o[2]))))
         [] mn = "pload" ->
              Then(FetchN(x, 2), LAMBDA y: LET o == y.val IN
                IF L4(o[2]) # 0 THEN Fail(y, TInvalid)
                ELSE Then(PhysRead(y, PhysAddr(GetB(y.c, L4(o[1])), GetW(y.c, H4(o[2])))),
                          LAMBDA p: WriteB(p, H4(o[1]), p.val)))

ExecReth(x) ==
  IF ~x.c.tr THEN Fail(x, TIllegalReth)
  ELSE Then(PopRegs(x), LAMBDA y: [y EXCEPT !.c.tr = FALSE])

Exec(x, op) ==
  IF ~IsOp(op) THEN Fail(x, TInvalid)
  ELSE LET mn == Mnem(op)
           sh == Shape(op)
       IN CASE mn = "null" -> Fail(x, TInvalid)
            [] mn = "halt" -> Fail(x, THalt)
            [] mn = "syscall" -> Fail(x, TSysCall)
            [] mn = "ctf" -> [x EXCEPT !.c.tr = FALSE]
            [] mn = "reth" -> ExecReth(x)
            [] mn \in Privileged -> ExecPriv(x, mn)
            [] mn = "nop" -> x
            [] mn = "push" -> ExecPush(x, sh)
            [] mn = "pop" -> ExecPop(x, sh)
            [] mn = "call" -> ExecCall(x)
            [] mn = "ret" -> ExecRet(x)
            [] mn \in CondJumps -> ExecJump(x, mn)
            [] mn = "store" -> ExecStore(x, sh)
            [] mn = "load" -> ExecLoad(x, sh)
            [] mn = "ldi" -> IF sh = "Bi8" THEN ExecLdiB(x) ELSE ExecLdiW(x)
            [] mn \in {"mul", "div"} ->
                 IF sh = "BBBB" THEN ExecMulDivB(x, mn) ELSE ExecMulDivW(x, mn)
            [] sh = "BBB" -> ExecAluB(x, mn)
            [] sh = "WWW" -> ExecAluW(x, mn)

-----------------------------------------------------------------------------
(* One step.  The result's t is NoTrap if the step completed (possibly by  *)
(* entering the installed trap handler) and otherwise the trap reported to *)
(* whoever runs the processor.                                             *)

(* the instruction by itself, before any trap is taken *)
Attempt(c, m) == Then(Fetch(Ctx(c, m)), LAMBDA y: Exec(y, y.val))

EnterHandler(x) ==
  LET x1 == [x EXCEPT !.c.tr = TRUE, !.c.um = FALSE]
  IN IF x.c.r[RH] = 0 THEN x1
     ELSE LET saved == PushRegs([x1 EXCEPT !.t = NoTrap], FlagWord(x.c))
          IN Then(saved, LAMBDA y: [y EXCEPT !.c.pc = y.c.r[RH], !.c.r[1] = x.t])

CpuStep(c, m) ==
  LET x == Attempt(c, m) IN IF x.t = NoTrap THEN x ELSE EnterHandler(x)

-----------------------------------------------------------------------------
(* Well-formedness, used as a type invariant *)

CpuTypeOK(c) ==
  /\ \A i \in 1..15 : c.r[i] \in 0..65535
  /\ c.pc \in 0..65535
  /\ \A f \in {c.z, c.s, c.cy, c.v, c.vm, c.um, c.tr, c.rv} : f \in BOOLEAN
=============================================================================
