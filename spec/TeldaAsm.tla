------------------------------ MODULE TeldaAsm ------------------------------
(***************************************************************************)
(* The assembler: from lines of source, as sequences of bytes, to an       *)
(* object or to the places of the faults.                                  *)
(*                                                                         *)
(* The assembler is a machine with a stack of open files (the main source  *)
(* and the files being included) and what has been assembled so far; each  *)
(* step consumes one line (AsmStep), and what comes out at the end is      *)
(* Finish.  Places of faults are <<path, line>>, line 0 for faults of the  *)
(* whole file.                                                             *)
(***************************************************************************)
EXTENDS TeldaObj, TeldaISA

-----------------------------------------------------------------------------
(* Names as bytes *)
Letters == "abcdefghijklmnopqrstuvwxyz"
Figures == "0123456789"
CodeOf == [c \in {SubSeq(Letters, i, i) : i \in 1..26} |->
             96 + (CHOOSE i \in 1..26 : SubSeq(Letters, i, i) = c)] @@
          [c \in {SubSeq(Figures, i, i) : i \in 1..10} |->
             47 + (CHOOSE i \in 1..10 : SubSeq(Figures, i, i) = c)]
B(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]
NameMap(names) == [b \in {B(n) : n \in names} |-> CHOOSE n \in names : B(n) = b]

Directive == NameMap({"string", "byte", "wide", "word", "include", "global", "globl",
                    "ref", "reference", "seg", "entry"})
SegName == NameMap({"data", "rodata", "text", "heap"})
SegOf == [data |-> 16, rodata |-> 24, text |-> 32, heap |-> 112]
NoSeg == 255

(* the privileged instructions have no assembly syntax *)
AsmOps == Opcodes \ {16, 17, 18, 19, 20}
Alias == ("str" :> "store") @@ ("jne" :> "jnz") @@ ("jc" :> "jb") @@ ("jnc" :> "jae") @@ ("jump" :> "jmp")
Mnemonic == NameMap({Mnem(op) : op \in AsmOps} \cup DOMAIN Alias \cup {"jmp"})
ByteReg == [b \in {B(ByteRegNames[i]) : i \in 1..16} |-> (CHOOSE i \in 1..16 : B(ByteRegNames[i]) = b) - 1]
WideReg == [b \in {B(WideRegNames[i]) : i \in 1..16} |-> (CHOOSE i \in 1..16 : B(WideRegNames[i]) = b) - 1]

-----------------------------------------------------------------------------
(* Bytes and text *)
White == {9, 10, 11, 12, 13, 32}
Trim(s) ==
  LET ink == {i \in 1..Len(s) : s[i] \notin White}
  IN IF ink = {} THEN <<>> ELSE SubSeq(s, Min(ink), Max(ink))
From(s, i) == SubSeq(s, i, Len(s))
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
(* the first place of a byte, 0 if there is none *)
FirstOf(s, c) == LET at == {i \in 1..Len(s) : s[i] = c} IN IF at = {} THEN 0 ELSE Min(at)
RECURSIVE Split(_, _)
Split(s, c) ==
  LET i == FirstOf(s, c)
  IN IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Split(From(s, i + 1), c)



-----------------------------------------------------------------------------
(* Numbers and characters *)
DigitVal(c) ==
  IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..122 THEN c - 87 ELSE IF c \in 65..90 THEN c - 55 ELSE 99
AreDigits(s, radix) == s # <<>> /\ \A i \in 1..Len(s) : DigitVal(s[i]) < radix
(* digits as values, without leading zeros *)
DigitsOf(s) ==
  LET d == [i \in 1..Len(s) |-> DigitVal(s[i])]
      nz == {i \in 1..Len(d) : d[i] # 0}
  IN IF nz = {} THEN <<>> ELSE From(d, Min(nz))
RECURSIVE ToDigits(_, _)
ToDigits(n, radix) == IF n = 0 THEN <<>> ELSE Append(ToDigits(n \div radix, radix), n % radix)
(* 2^31 in a radix: its digits do not come from a number TLC can hold *)
TwoTo31(radix) ==
  CASE radix = 10 -> <<2, 1, 4, 7, 4, 8, 3, 6, 4, 8>>
    [] radix = 16 -> <<8, 0, 0, 0, 0, 0, 0, 0>>
    [] radix = 8 -> <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
    [] radix = 2 -> [i \in 1..32 |-> IF i = 1 THEN 1 ELSE 0]
NotAbove(a, b) ==
  \/ Len(a) < Len(b)
  \/ Len(a) = Len(b) /\ LET diff == {i \in 1..Len(a) : a[i] # b[i]}
                         IN diff = {} \/ a[Min(diff)] < b[Min(diff)]
ModWide(d, radix) == FoldLeft(LAMBDA acc, x: ((acc * radix) + x) % 65536, 0, d)

NoNumber == [ok |-> FALSE]
(* a literal with an optional sign; top and bottom are the digits of the largest magnitudes,
   bottom of <<>> for no negative numbers at all *)
Literal(s, radix, top, bottom, signed) ==
  LET sign == IF s # <<>> /\ (s[1] = 43 \/ (s[1] = 45 /\ signed)) THEN s[1] ELSE 0
      body == IF sign = 0 THEN s ELSE From(s, 2)
  IN IF ~AreDigits(body, radix) THEN NoNumber
     ELSE LET d == DigitsOf(body)
              v == ModWide(d, radix)
          IN IF sign = 45
             THEN IF NotAbove(d, bottom) THEN [ok |-> TRUE, v |-> (65536 - v) % 65536] ELSE NoNumber
             ELSE IF NotAbove(d, top) THEN [ok |-> TRUE, v |-> v] ELSE NoNumber
Sized(s, radix, umax, smax) ==
  LET u == Literal(s, radix, ToDigits(umax, radix), <<>>, FALSE)
  IN IF u.ok THEN u ELSE Literal(s, radix, ToDigits(smax, radix), ToDigits(smax + 1, radix), TRUE)
Plain(s, radix) == Literal(s, radix, ToDigits(2147483647, radix), TwoTo31(radix), TRUE)

(* the character at s[i], possibly an escape: [ok, c, n], n the place after it *)
EscapeOf == (114 :> 13) @@ (116 :> 9) @@ (110 :> 10) @@ (48 :> 0) @@ (92 :> 92) @@ (39 :> 39) @@ (34 :> 34)
CharAt(s, i) ==
  IF i > Len(s) THEN NoNumber
  ELSE IF s[i] # 92 THEN [ok |-> TRUE, c |-> s[i], n |-> i + 1]
  ELSE IF i + 1 > Len(s) THEN NoNumber
  ELSE IF s[i + 1] \in DOMAIN EscapeOf THEN [ok |-> TRUE, c |-> EscapeOf[s[i + 1]], n |-> i + 2]
  ELSE IF s[i + 1] = 120 /\ i + 3 <= Len(s) /\ AreDigits(SubSeq(s, i + 2, i + 3), 16)
  THEN [ok |-> TRUE, c |-> (16 * DigitVal(s[i + 2])) + DigitVal(s[i + 3]), n |-> i + 4]
  ELSE NoNumber
RECURSIVE TextFrom(_, _, _)
TextFrom(s, i, have) ==
  IF i > Len(s) THEN [ok |-> TRUE, b |-> have]
  ELSE LET c == CharAt(s, i) IN IF c.ok THEN TextFrom(s, c.n, Append(have, c.c)) ELSE NoNumber
TextOf(s) ==
  IF \A i \in 1..Len(s) : s[i] # 92 THEN [ok |-> TRUE, b |-> s] ELSE TextFrom(s, 1, <<>>)

(* an operand that is no register: k is "num" (any width), "byte", "wide", "label" or "bad" *)
Word(arg) ==
  LET pre == IF Len(arg) >= 2 /\ arg[1] = 48 THEN arg[2] ELSE 0
      radix == CASE pre = 120 -> 16 [] pre = 98 -> 2 [] pre = 111 -> 8 [] OTHER -> 10
      num == IF radix = 10 THEN arg ELSE From(arg, 3)
      last == IF num = <<>> THEN 0 ELSE num[Len(num)]
      short == IF num = <<>> THEN num ELSE SubSeq(num, 1, Len(num) - 1)
      quoted == Len(arg) >= 2 /\ arg[1] = 39 /\ arg[Len(arg)] = 39
      label == [k |-> "label", v |-> 0, name |-> arg]
      val(kind, l, m) == IF l.ok THEN [k |-> kind, v |-> l.v % m, name |-> <<>>] ELSE label
  IN IF last = 98 THEN val("byte", Sized(short, radix, 255, 127), 256)
     ELSE IF last = 119 THEN val("wide", Sized(short, radix, 65535, 32767), 65536)
     ELSE IF quoted
     THEN LET c == CharAt(SubSeq(arg, 2, Len(arg) - 1), 1)
          IN IF c.ok /\ c.n = Len(arg) - 1 THEN [k |-> "byte", v |-> c.c, name |-> <<>>]
             ELSE [k |-> "bad", v |-> 0, name |-> arg]
     ELSE val("num", Plain(num, radix), 65536)
Operand(arg) ==
  IF arg \in DOMAIN ByteReg THEN [k |-> "B", v |-> ByteReg[arg], name |-> <<>>]
  ELSE IF arg \in DOMAIN WideReg THEN [k |-> "W", v |-> WideReg[arg], name |-> <<>>]
  ELSE Word(arg)

-----------------------------------------------------------------------------
(* Instructions: what the operands must be, and the code.  Code is bytes    *)
(* and at most one place where a label's value goes: use is <<>> or         *)
(* <<place, name>>.                                                         *)
Fault == [ok |-> FALSE]
IsReg(o) == o.k \in {"B", "W"}
Is(o, kind) ==
  CASE kind \in {"B", "W"} -> o.k = kind
    [] kind = "8" -> o.k \in {"num", "byte"}
    [] kind = "16" -> o.k \in {"num", "wide", "label"}
Pattern(op) ==
  LET sh == Shape(op) IN
  CASE sh = "n" -> <<>>
    [] sh = "B" -> <<"B">> [] sh = "W" -> <<"W">>
    [] sh = "i8" -> <<"8">> [] sh = "i16" -> <<"16">>
    [] sh = "Bi8" -> <<"B", "8">> [] sh = "ldiw" -> <<"W", "16">>
    [] sh = "WBi" -> <<"W", "16", "B">>
    [] sh = "WWi" -> (IF Mnem(op) = "store" THEN <<"W", "16", "W">> ELSE <<"W", "W", "16">>)
    [] sh = "BWi" -> <<"B", "W", "16">>
    [] sh = "BBB" -> <<"B", "B", "B">> [] sh = "WWW" -> <<"W", "W", "W">>
    [] sh = "WWB" -> <<"W", "W", "B">> [] sh = "BWW" -> <<"B", "W", "W">>
    [] sh = "BBBB" -> <<"B", "B", "B", "B">> [] sh = "WWWW" -> <<"W", "W", "W", "W">>
Matches(op, ops) ==
  LET p == Pattern(op) IN Len(p) = Len(ops) /\ \A i \in 1..Len(p) : Is(ops[i], p[i])

(* registers two per byte in operand order *)
RegBytes(rs) ==
  [i \in 1..((Len(rs) + 1) \div 2) |->
     (16 * rs[(2 * i) - 1].v) + (IF 2 * i <= Len(rs) THEN rs[2 * i].v ELSE 0)]
ImmBytes(o, wide) == IF wide THEN Bytes2(o.v) ELSE <<o.v % 256>>
Coded(op, ops) ==
  LET rb == <<op>> \o RegBytes(SelectSeq(ops, IsReg))
      imms == SelectSeq(ops, LAMBDA o: ~IsReg(o))
      wide == \E i \in 1..Len(Pattern(op)) : Pattern(op)[i] = "16"
  IN IF imms = <<>> THEN [ok |-> TRUE, b |-> rb, use |-> <<>>]
     ELSE [ok |-> TRUE, b |-> rb \o ImmBytes(imms[1], wide),
           use |-> IF imms[1].k = "label" THEN <<Len(rb), imms[1].name>> ELSE <<>>]
(* a jump is a load of the program counter in disguise: ldi with variant 1 *)
LdiW == 64
JmpCode(ops) ==
  IF Len(ops) # 1 THEN Fault
  ELSE LET o == ops[1] IN
       IF Is(o, "16")
       THEN [ok |-> TRUE, b |-> <<LdiW, 1>> \o Bytes2(o.v), use |-> IF o.k = "label" THEN <<2, o.name>> ELSE <<>>]
       ELSE IF o.k = "W" /\ o.v # 0 THEN [ok |-> TRUE, b |-> <<LdiW, (16 * o.v) + 1, 0, 0>>, use |-> <<>>]
       ELSE Fault
ZeroByte == [k |-> "byte", v |-> 0, name |-> <<>>]
InsCode(mn, ops) ==
  LET m == IF mn \in DOMAIN Alias THEN Alias[mn] ELSE mn
      o == IF m = "ret" /\ ops = <<>> THEN <<ZeroByte>> ELSE ops
      fit == {op \in AsmOps : Mnem(op) = m /\ Matches(op, o)}
  IN IF m = "jmp" THEN JmpCode(ops)
     ELSE IF fit = {} THEN Fault ELSE Coded(CHOOSE op \in fit : TRUE, o)

-----------------------------------------------------------------------------
(* Lines.  k is what the line is; a line that is faulty by itself has k     *)
(* "fault".                                                                 *)
FaultLine == [k |-> "fault"]
Data(b) == [k |-> "code", b |-> b, use |-> <<>>]
DirectiveLine(s) ==
  LET i == FirstOf(s, 32)
      name == IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
      arg == IF i = 0 THEN <<>> ELSE From(s, i + 1)
      d == IF name \in DOMAIN Directive THEN Directive[name] ELSE "none"
      w == Word(arg)
      t == TextOf(arg)
  IN CASE d = "string" -> (IF t.ok THEN Data(t.b) ELSE FaultLine)
       [] d = "byte" -> (IF w.k \in {"num", "byte"} THEN Data(<<w.v % 256>>) ELSE FaultLine)
       [] d \in {"wide", "word"} ->
            (IF w.k \in {"num", "wide"} THEN Data(Bytes2(w.v))
             ELSE IF w.k = "label" THEN [k |-> "code", b |-> <<0, 0>>, use |-> <<0, arg>>]
             ELSE FaultLine)
       [] d = "include" -> [k |-> "include", arg |-> arg]
       [] d \in {"global", "globl"} -> [k |-> "global", name |-> arg]
       [] d \in {"ref", "reference"} -> [k |-> "reference", name |-> arg]
       [] d = "seg" -> (IF arg \in DOMAIN SegName THEN [k |-> "seg", seg |-> SegOf[SegName[arg]]] ELSE FaultLine)
       [] d = "entry" -> [k |-> "entry"]
       [] d = "none" -> FaultLine

(* What is said of a number given as datum: that it is above what the place *)
(* holds without sign, or below what it holds with sign.                    *)
DatumWarning(arg, place, umax, smin) ==
  LET radix == CASE StartsWith(arg, <<48, 120>>) -> 16 [] StartsWith(arg, <<48, 98>>) -> 2 [] StartsWith(arg, <<48, 111>>) -> 8 [] OTHER -> 10
      num == IF radix = 10 THEN arg ELSE From(arg, 3)
      negative == num # <<>> /\ num[1] = 45
      size == DigitsOf(IF num # <<>> /\ num[1] \in {43, 45} THEN From(num, 2) ELSE num)
  IN IF Word(arg).k # "num" THEN <<>>
     ELSE IF negative THEN IF NotAbove(size, ToDigits(smin, radix)) THEN <<>> ELSE <<<<place, "underflow">>>>
     ELSE IF NotAbove(size, ToDigits(umax, radix)) THEN <<>> ELSE <<<<place, "overflow">>>>
WarningsOf(raw) ==
  LET s == Trim(raw)
      i == FirstOf(s, 32)
      name == IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
      arg == IF i = 0 THEN <<>> ELSE From(s, i + 1)
      d == IF s # <<>> /\ s[1] = 46 /\ From(name, 2) \in DOMAIN Directive THEN Directive[From(name, 2)] ELSE "none"
  IN CASE d = "byte" -> DatumWarning(arg, "byte", 255, 128)
       [] d \in {"wide", "word"} -> DatumWarning(arg, "wide", 65535, 32768)
       [] OTHER -> <<>>

LineOf(raw) ==
  LET s == Trim(raw)
  IN IF ~Utf8(raw) THEN FaultLine
     ELSE IF s = <<>> \/ s[1] \in {59, 35} \/ StartsWith(s, <<47, 47>>) THEN [k |-> "comment"]
     ELSE IF s[1] = 46 THEN DirectiveLine(From(s, 2))
     ELSE IF s[Len(s)] = 58 THEN [k |-> "label", name |-> SubSeq(s, 1, Len(s) - 1)]
     ELSE LET i == FirstOf(s, 32)
              mn == IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
              args == IF i = 0 THEN <<>> ELSE Split(From(s, i), 44)
              ops == [j \in 1..Len(args) |-> Operand(Trim(args[j]))]
          IN IF \E j \in 1..Len(ops) : ops[j].k = "bad" THEN FaultLine
             ELSE IF mn \notin DOMAIN Mnemonic THEN FaultLine
             ELSE LET c == InsCode(Mnemonic[mn], ops)
                  IN IF c.ok THEN [k |-> "code", b |-> c.b, use |-> c.use] ELSE FaultLine

-----------------------------------------------------------------------------
(* Paths *)
RECURSIVE NormParts(_, _)
NormParts(parts, have) ==
  IF parts = <<>> THEN have
  ELSE LET p == parts[1] IN
       NormParts(Tail(parts),
                 IF p \in {<<>>, <<46>>} THEN have
                 ELSE IF p = <<46, 46>> /\ have # <<>> THEN SubSeq(have, 1, Len(have) - 1)
                 ELSE Append(have, p))
Norm(path) == NormParts(Split(path, 47), <<>>)
DirOf(path) ==
  LET at == {i \in 1..Len(path) : path[i] = 47} IN IF at = {} THEN <<>> ELSE SubSeq(path, 1, Max(at))
(* files: a sequence of [path, lines]; 0 if there is no such file *)
FileAt(files, path) ==
  LET at == {i \in 1..Len(files) : Norm(files[i].path) = Norm(path)} IN IF at = {} THEN 0 ELSE Min(at)
IncludePath(from, arg) == IF arg # <<>> /\ arg[1] = 47 THEN From(arg, 2) ELSE DirOf(from) \o arg

-----------------------------------------------------------------------------
(* The machine *)
AsmSegs == {16, 24, 32, 112, NoSeg}
AsmStart ==
  [segs |-> [s \in AsmSegs |-> [on |-> FALSE, b |-> <<>>]],
   syms |-> <<>>, uses |-> <<>>, entry |-> <<>>, faults |-> {}, dead |-> FALSE, warns |-> <<>>]
StackStart(main, files) == <<[path |-> main, file |-> FileAt(files, main), ln |-> 0, cur |-> NoSeg]>>

AddFault(a, loc) == [a EXCEPT !.faults = @ \cup {loc}]
SymAt(a, name) == LET at == {i \in 1..Len(a.syms) : a.syms[i].name = name} IN IF at = {} THEN 0 ELSE Min(at)
NewSym(name) == [name |-> name, def |-> <<>>, scope |-> "local", at |-> {}]
(* makes the symbol known *)
Mention(a, name) == IF SymAt(a, name) = 0 THEN [a EXCEPT !.syms = Append(@, NewSym(name))] ELSE a
UseAt(a, name, loc) ==
  LET m == Mention(a, name) IN [m EXCEPT !.syms[SymAt(m, name)].at = @ \cup {loc}]

EmitLine(a, seg, line, loc) ==
  LET used == IF line.use = <<>> THEN a ELSE UseAt(a, line.use[2], loc)
      at == Len(a.segs[seg].b)
  IN IF at + Len(line.b) > 65535 THEN AddFault([used EXCEPT !.segs[seg].on = TRUE], loc)
     ELSE LET e == [used EXCEPT !.segs[seg] = [on |-> TRUE, b |-> @.b \o line.b],
                                !.uses = IF line.use = <<>> THEN @
                                         ELSE Append(@, <<seg, at + line.use[1], SymAt(used, line.use[2])>>),
                                !.dead = @ \/ seg = NoSeg]
          IN IF seg = NoSeg THEN AddFault(e, loc) ELSE e
LabelLine(a, seg, name, loc) ==
  IF seg = NoSeg THEN AddFault(a, loc)
  ELSE LET m == Mention(a, name)
           i == SymAt(m, name)
           d == [m EXCEPT !.syms[i].def = <<seg, Len(a.segs[seg].b)>>]
       IN IF m.syms[i].def # <<>> THEN AddFault(d, loc) ELSE d
EntryLine(a, seg, loc) ==
  IF a.entry # <<>> \/ seg = NoSeg THEN AddFault(a, loc)
  ELSE [a EXCEPT !.entry = <<seg, Len(a.segs[seg].b)>>]
ScopeLine(a, name, scope, loc) ==
  LET u == UseAt(a, name, loc)
      i == SymAt(u, name)
  (* once a reference, always a reference *)
  IN [u EXCEPT !.syms[i].scope = IF @ = "reference" THEN @ ELSE scope]

(* one line, or the end of a file: [a, stack] *)
AsmStep(a0, stack, files) ==
  LET top == stack[Len(stack)]
      below == SubSeq(stack, 1, Len(stack) - 1)
      lines == files[top.file].lines
      ln == top.ln + 1
      loc == <<top.path, ln>>
      a == IF ln > Len(lines) THEN a0 ELSE [a0 EXCEPT !.warns = @ \o WarningsOf(lines[ln])]
      moved == Append(below, [top EXCEPT !.ln = ln])
      on(b) == [a |-> b, stack |-> moved]
      line == LineOf(lines[ln])
  IN IF ln > Len(lines) THEN [a |-> a, stack |-> below]
     ELSE CASE line.k = "comment" -> on(a)
            [] line.k = "fault" -> on(AddFault(a, loc))
            [] line.k = "code" -> on(EmitLine(a, top.cur, line, loc))
            [] line.k = "label" -> on(LabelLine(a, top.cur, line.name, loc))
            [] line.k = "entry" -> on(EntryLine(a, top.cur, loc))
            [] line.k = "global" -> on(ScopeLine(a, line.name, "global", loc))
            [] line.k = "reference" -> on(ScopeLine(a, line.name, "reference", loc))
            [] line.k = "seg" -> [a |-> a, stack |-> Append(below, [top EXCEPT !.ln = ln, !.cur = line.seg])]
            [] line.k = "include" ->
                 LET p == IncludePath(top.path, line.arg)
                     f == FileAt(files, p)
                 IN IF f = 0 \/ \E i \in 1..Len(stack) : stack[i].file = f
                    THEN on(AddFault(a, loc))
                    ELSE [a |-> a, stack |-> Append(moved, [path |-> p, file |-> f, ln |-> 0, cur |-> NoSeg])]

-----------------------------------------------------------------------------
(* The end *)
Order == <<16, 24, 32, 112, NoSeg>>
Page == 128
(* the value of a symbol that is not defined here *)
Unbound == 64255
RoundUp(n) == Page * ((n + Page - 1) \div Page)
(* starts of the segments that are there, as a function; -1 for none *)
Starts(a) ==
  LET step(acc, s) ==
        IF ~a.segs[s].on THEN acc
        ELSE LET st == RoundUp(acc.last)
             IN [last |-> st + Len(a.segs[s].b), at |-> [acc.at EXCEPT ![s] = st]]
  IN FoldLeft(step, [last |-> Page, at |-> [s \in AsmSegs |-> -1]], Order)

Finish(a, main) ==
  LET lay == Starts(a)
      fit == lay.last <= 65535
      start(s) == IF lay.at[s] = -1 THEN 0 ELSE lay.at[s]
      value(y) == IF y.def = <<>> THEN Unbound ELSE (start(y.def[1]) + y.def[2]) % 65536
      unbound == {i \in 1..Len(a.syms) : a.syms[i].def = <<>> /\ a.syms[i].scope = "local"}
      misref == {i \in 1..Len(a.syms) : a.syms[i].def # <<>> /\ a.syms[i].scope = "reference"}
      faults == a.faults
                \cup UNION {a.syms[i].at : i \in unbound}
                \cup (IF fit /\ misref = {} THEN {} ELSE {<<main, 0>>})
      patch(b, s) ==
        LET here == {i \in 1..Len(a.uses) : a.uses[i][1] = s}
        IN IF here = {} THEN b
           ELSE LET at == [p \in {a.uses[i][2] : i \in here} |->
                             Bytes2(value(a.syms[a.uses[CHOOSE i \in here : a.uses[i][2] = p][3]]))]
                IN [j \in 1..Len(b) |->
                      IF j - 1 \in DOMAIN at THEN at[j - 1][1]
                      ELSE IF j - 2 \in DOMAIN at THEN at[j - 2][2] ELSE b[j]]
      there == SelectSeq(Order, LAMBDA s: a.segs[s].on)
  IN IF faults # {}
     THEN [ok |-> FALSE, faults |-> faults, dead |-> a.dead, names |-> {a.syms[i].name : i \in misref}]
     ELSE [ok |-> TRUE,
           obj |-> [off |-> 0, flags |-> <<>>, stack |-> <<>>, heap |-> <<>>,
                    entry |-> IF a.entry = <<>> THEN <<>> ELSE <<a.entry[1], start(a.entry[1]) + a.entry[2]>>,
                    segs |-> [i \in 1..Len(there) |-> <<there[i], lay.at[there[i]], patch(a.segs[there[i]].b, there[i])>>],
                    syms |-> [i \in 1..Len(a.syms) |->
                                LET y == a.syms[i] IN
                                <<y.name, IF y.scope = "local" THEN 0 ELSE 1,
                                  IF y.def = <<>> THEN NoSeg ELSE y.def[1], value(y)>>],
                    rel |-> [i \in 1..Len(a.uses) |->
                               <<a.uses[i][1], start(a.uses[i][1]) + a.uses[i][2], a.uses[i][3] - 1>>]]]

(* a whole source at once *)
RECURSIVE RunAsm(_, _, _)
RunAsm(a, stack, files) ==
  IF stack = <<>> THEN a ELSE LET n == AsmStep(a, stack, files) IN RunAsm(n.a, n.stack, files)
Assemble(main, files) ==
  IF FileAt(files, main) = 0 THEN [ok |-> FALSE, faults |-> {<<main, 0>>}, dead |-> FALSE, names |-> {}]
  ELSE Finish(RunAsm(AsmStart, StackStart(main, files), files), main)

-----------------------------------------------------------------------------
(* What makes an object a faithful one, independent of how it was made      *)
SegRange(s) == s[2]..(s[2] + Len(s[3]) - 1)
Consistent(o) ==
  /\ \A i, j \in 1..Len(o.segs) : i < j => SegRange(o.segs[i]) \cap SegRange(o.segs[j]) = {}
  /\ \A i \in 1..Len(o.segs) : o.segs[i][2] % Page = 0 /\ o.segs[i][2] >= Page
  /\ \A i \in 1..Len(o.syms) :
       LET y == o.syms[i] IN
       \/ y[3] = NoSeg /\ y[2] = 1
       \/ \E j \in 1..Len(o.segs) : o.segs[j][1] = y[3] /\ y[4] - o.segs[j][2] \in 0..Len(o.segs[j][3])
       \/ y[4] = 0 /\ \A j \in 1..Len(o.segs) : o.segs[j][1] # y[3]
  /\ \A i, j \in 1..Len(o.syms) : i # j => o.syms[i][1] # o.syms[j][1]
  /\ \A i \in 1..Len(o.rel) :
       LET r == o.rel[i] IN
       /\ r[3] < Len(o.syms)
       /\ \E j \in 1..Len(o.segs) :
            /\ o.segs[j][1] = r[1] /\ r[2] - o.segs[j][2] \in 0..(Len(o.segs[j][3]) - 2)
            /\ Wide(o.segs[j][3][r[2] - o.segs[j][2] + 1], o.segs[j][3][r[2] - o.segs[j][2] + 2]) = o.syms[r[3] + 1][4]
  /\ \A i, j \in 1..Len(o.rel) : i # j => o.rel[i][1] # o.rel[j][1] \/ (o.rel[i][2] - o.rel[j][2]) \notin {-1, 0, 1}
=============================================================================
