------------------------------ MODULE TeldaObj ------------------------------
(***************************************************************************)
(* The object file format, byte for byte, and archives of objects.         *)
(*                                                                         *)
(* A file is a sequence of bytes: anything, the magic, sections, a zero.   *)
(* A section is its name, a zero, its length (two bytes, low first) and    *)
(* that many bytes.  Objects are records as in TeldaLoad, plus off, the    *)
(* number of bytes before the magic; names are byte sequences.             *)
(***************************************************************************)
EXTENDS TeldaBits, SequencesExt, FiniteSets, FiniteSetsExt, TLC

Magic == <<195, 161, 108, 118, 117, 114, 50, 10>>
ArchiveMagic == <<195, 161, 108, 118, 97, 115, 97, 118, 110, 10>>
NEntry == <<95, 101, 110, 116, 114, 121>>
NFlags == <<95, 102, 108, 97, 103, 115>>
NStack == <<95, 115, 116, 97, 99, 107, 95, 115, 105, 122, 101>>
NHeap  == <<95, 104, 101, 97, 112, 95, 115, 105, 122, 101>>
NSeg   == <<95, 115, 101, 103>>
NSyms  == <<95, 115, 121, 109, 115>>
NReloc == <<95, 114, 101, 108, 111, 99>>
ObjNames == {NEntry, NFlags, NStack, NHeap, NSeg, NSyms, NReloc}
SegNumbers == {0, 16, 24, 32, 112, 255}

Bytes2(w) == <<Lo(w), Hi(w)>>

(* whether bytes are UTF-8 *)
Cont(s, i) == i <= Len(s) /\ s[i] >= 128 /\ s[i] <= 191
RECURSIVE Utf8From(_, _)
Utf8From(s, i) ==
  IF i > Len(s) THEN TRUE
  ELSE LET c == s[i] IN
       IF c < 128 THEN Utf8From(s, i + 1)
       ELSE IF c \in 194..223 THEN Cont(s, i + 1) /\ Utf8From(s, i + 2)
       ELSE IF c \in 224..239
       THEN /\ Cont(s, i + 1) /\ Cont(s, i + 2)
            /\ (c = 224 => s[i + 1] >= 160) /\ (c = 237 => s[i + 1] <= 159)
            /\ Utf8From(s, i + 3)
       ELSE IF c \in 240..244
       THEN /\ Cont(s, i + 1) /\ Cont(s, i + 2) /\ Cont(s, i + 3)
            /\ (c = 240 => s[i + 1] >= 144) /\ (c = 244 => s[i + 1] <= 143)
            /\ Utf8From(s, i + 4)
       ELSE FALSE
Utf8(s) == (\A i \in 1..Len(s) : s[i] < 128) \/ Utf8From(s, 1)

-----------------------------------------------------------------------------
(* Encoding *)

SymBytes(s) == (IF s[2] = 1 THEN <<>> ELSE <<32>>) \o s[1] \o <<0, s[3]>> \o Bytes2(s[4])
RelBytes(r) == <<r[1]>> \o Bytes2(r[2]) \o Bytes2(r[3])
SegBytes(s) == Bytes2(s[2]) \o <<s[1]>> \o s[3]
Flat(ss) == FoldLeft(LAMBDA a, x: a \o x, <<>>, ss)

(* the sections of an object as <<name, body>>, in the usual order *)
SectionsOf(o) ==
  (IF o.entry = <<>> THEN <<>> ELSE <<<<NEntry, <<o.entry[1]>> \o Bytes2(o.entry[2])>>>>)
  \o (IF o.flags = <<>> THEN <<>> ELSE <<<<NFlags, IF o.flags[1] = 1 THEN <<82>> ELSE <<>>>>>>)
  \o (IF o.stack = <<>> THEN <<>> ELSE <<<<NStack, Bytes2(o.stack[1])>>>>)
  \o (IF o.heap = <<>> THEN <<>> ELSE <<<<NHeap, Bytes2(o.heap[1])>>>>)
  \o [i \in 1..Len(o.segs) |-> <<NSeg, SegBytes(o.segs[i])>>]
  \o (IF o.syms = <<>> THEN <<>> ELSE <<<<NSyms, Flat([i \in 1..Len(o.syms) |-> SymBytes(o.syms[i])])>>>>)
  \o (IF o.rel = <<>> THEN <<>> ELSE <<<<NReloc, Flat([i \in 1..Len(o.rel) |-> RelBytes(o.rel[i])])>>>>)

EncodeSection(s) == s[1] \o <<0>> \o Bytes2(Len(s[2])) \o s[2]
EncodeSections(secs) == Magic \o Flat([i \in 1..Len(secs) |-> EncodeSection(secs[i])]) \o <<0>>
Encode(o) == EncodeSections(SectionsOf(o))

(* what the format can hold *)
NameFits(s) == ~\E i \in 1..Len(s[1]) : s[1][i] = 0
ScopeFits(s) == s[2] = 1 => (s[1] = <<>> \/ s[1][1] # 32)
Fits(o) ==
  /\ \A i \in 1..Len(o.segs) : Len(o.segs[i][3]) + 3 <= 65535
  /\ \A i \in 1..Len(o.syms) : NameFits(o.syms[i]) /\ ScopeFits(o.syms[i])
  /\ FoldLeft(LAMBDA a, s: a + Len(SymBytes(s)), 0, o.syms) <= 65535
  /\ 5 * Len(o.rel) <= 65535

-----------------------------------------------------------------------------
(* Decoding.  Results are [ok, ...]. *)
Error == [ok |-> FALSE]

MagicAt(b, i) == i + 7 <= Len(b) /\ SubSeq(b, i, i + 7) = Magic
(* first magic from position i on, 0 if none *)
FindMagic(b, i) ==
  LET at == {j \in i..(Len(b) - 7) : b[j] = 195 /\ MagicAt(b, j)}
  IN IF at = {} THEN 0 ELSE Min(at)

RECURSIVE ZeroFrom(_, _)
ZeroFrom(b, i) == IF i > Len(b) THEN 0 ELSE IF b[i] = 0 THEN i ELSE ZeroFrom(b, i + 1)

RECURSIVE ReadSections(_, _, _)
ReadSections(b, i, have) ==
  LET z == ZeroFrom(b, i)
  IN IF z = 0 THEN Error
     ELSE IF z = i THEN [ok |-> TRUE, secs |-> have, end |-> i + 1]
     ELSE IF z + 2 > Len(b) THEN Error
     ELSE LET len == Wide(b[z + 1], b[z + 2])
          IN IF z + 2 + len > Len(b) THEN Error
             ELSE ReadSections(b, z + 3 + len,
                               Append(have, <<SubSeq(b, i, z - 1), SubSeq(b, z + 3, z + 2 + len)>>))

(* one pass over the bytes of a symbol table; n: in the name, else bytes after it so far *)
ReadSyms(b) ==
  LET step(st, x) ==
        IF st.after = <<>> /\ ~st.named
        THEN IF x = 0 THEN [st EXCEPT !.named = TRUE] ELSE [st EXCEPT !.name = Append(@, x)]
        ELSE LET af == Append(st.after, x)
             IN IF Len(af) < 3 THEN [st EXCEPT !.after = af]
                ELSE LET loc == st.name # <<>> /\ st.name[1] = 32
                     IN [name |-> <<>>, named |-> FALSE, after |-> <<>>,
                         out |-> Append(st.out, <<IF loc THEN Tail(st.name) ELSE st.name, IF loc THEN 0 ELSE 1,
                                                  af[1], Wide(af[2], af[3])>>)]
      r == FoldLeft(step, [name |-> <<>>, named |-> FALSE, after |-> <<>>, out |-> <<>>], b)
  IN IF r.name # <<>> \/ r.named THEN Error
     ELSE IF \E i \in 1..Len(r.out) : r.out[i][3] \notin SegNumbers THEN Error
     ELSE [ok |-> TRUE, v |-> r.out]

ReadRels(b) ==
  IF Len(b) % 5 # 0 THEN Error
  ELSE LET out == [i \in 1..(Len(b) \div 5) |->
                     <<b[5 * i - 4], Wide(b[5 * i - 3], b[5 * i - 2]), Wide(b[5 * i - 1], b[5 * i])>>]
       IN IF \E i \in 1..Len(out) : out[i][1] \notin SegNumbers THEN Error ELSE [ok |-> TRUE, v |-> out]

Named(secs, n) == SelectSeq(secs, LAMBDA s: s[1] = n)
(* the single section of that name as <<body>>, <<>> if there is none *)
Bodies(secs, n) == [i \in 1..Len(Named(secs, n)) |-> Named(secs, n)[i][2]]

DecodeSections(off, secs) ==
  LET e == Bodies(secs, NEntry)
      f == Bodies(secs, NFlags)
      st == Bodies(secs, NStack)
      hp == Bodies(secs, NHeap)
      sg == Bodies(secs, NSeg)
      sy == Bodies(secs, NSyms)
      rl == Bodies(secs, NReloc)
      syms == IF sy = <<>> THEN [ok |-> TRUE, v |-> <<>>] ELSE ReadSyms(sy[1])
      rels == IF rl = <<>> THEN [ok |-> TRUE, v |-> <<>>] ELSE ReadRels(rl[1])
      segs == [i \in 1..Len(sg) |-> <<sg[i][3], Wide(sg[i][1], sg[i][2]), SubSeq(sg[i], 4, Len(sg[i]))>>]
  IN IF \E q \in {e, f, st, hp, sy, rl} : Len(q) > 1 THEN Error
     ELSE IF \E i \in 1..Len(secs) : secs[i][1][1] = 95 /\ secs[i][1] \notin ObjNames THEN Error
     ELSE IF \E i \in 1..Len(sg) : Len(sg[i]) < 3 \/ sg[i][3] \notin SegNumbers THEN Error
     ELSE IF \E i, j \in 1..Len(sg) : i # j /\ sg[i][3] = sg[j][3] THEN Error
     ELSE IF e # <<>> /\ (Len(e[1]) # 3 \/ e[1][1] \notin SegNumbers) THEN Error
     ELSE IF f # <<>> /\ \E i \in 1..Len(f[1]) : f[1][i] # 82 THEN Error
     ELSE IF (st # <<>> /\ Len(st[1]) # 2) \/ (hp # <<>> /\ Len(hp[1]) # 2) THEN Error
     ELSE IF ~syms.ok \/ ~rels.ok THEN Error
     ELSE [ok |-> TRUE,
           o |-> [off |-> off,
                  entry |-> IF e = <<>> THEN <<>> ELSE <<e[1][1], Wide(e[1][2], e[1][3])>>,
                  flags |-> IF f = <<>> THEN <<>> ELSE <<IF f[1] = <<>> THEN 0 ELSE 1>>,
                  stack |-> IF st = <<>> THEN <<>> ELSE <<Wide(st[1][1], st[1][2])>>,
                  heap |-> IF hp = <<>> THEN <<>> ELSE <<Wide(hp[1][1], hp[1][2])>>,
                  segs |-> SortSeq(segs, LAMBDA x, y: x[1] < y[1]),
                  syms |-> syms.v, rel |-> rels.v]]

(* A section may hold more than it needs: what is left over has no meaning. *)
(* Strictly it is none of the format, so reading it may be refused.         *)
Shortened(s) ==
  CASE s[1] = NEntry /\ Len(s[2]) > 3 -> <<s[1], SubSeq(s[2], 1, 3)>>
    [] s[1] \in {NStack, NHeap} /\ Len(s[2]) > 2 -> <<s[1], SubSeq(s[2], 1, 2)>>
    [] s[1] = NReloc -> <<s[1], SubSeq(s[2], 1, Len(s[2]) - (Len(s[2]) % 5))>>
    [] OTHER -> s
DecodeLoosely(b) ==
  LET at == FindMagic(b, 1)
      s == IF at = 0 THEN Error ELSE ReadSections(b, at + 8, <<>>)
      d == IF s.ok THEN DecodeSections(at - 1, [i \in 1..Len(s.secs) |-> Shortened(s.secs[i])]) ELSE Error
  IN d
PlainNames(o) == \A i \in 1..Len(o.syms) : Utf8(o.syms[i][1])

(* the object found from position i on, and where it ends *)
DecodeFrom(b, i) ==
  LET at == FindMagic(b, i)
  IN IF at = 0 THEN Error
     ELSE LET s == ReadSections(b, at + 8, <<>>)
          IN IF ~s.ok THEN Error
             ELSE LET d == DecodeSections(at - 1, s.secs)
                  IN IF d.ok THEN [ok |-> TRUE, o |-> d.o, end |-> s.end] ELSE Error
Decode(b) == DecodeFrom(b, 1)

-----------------------------------------------------------------------------
(* Archives: the objects until the end or the first that cannot be read *)
RECURSIVE Members(_, _, _)
Members(b, i, have) ==
  LET d == DecodeFrom(b, i)
  IN IF ~d.ok THEN [objs |-> have, ok |-> FALSE]
     ELSE IF d.end > Len(b) THEN [objs |-> Append(have, d.o), ok |-> TRUE]
     ELSE Members(b, d.end, Append(have, d.o))
DecodeArchive(b) ==
  IF Len(b) < 10 \/ SubSeq(b, 1, 10) # ArchiveMagic THEN [objs |-> <<>>, ok |-> FALSE]
  ELSE Members(b, 11, <<>>)
EncodeArchive(files) == ArchiveMagic \o Flat(files)

SameObject(o, p) ==
  /\ o.entry = p.entry /\ o.flags = p.flags /\ o.stack = p.stack /\ o.heap = p.heap
  /\ o.segs = p.segs /\ o.syms = p.syms /\ o.rel = p.rel
SameFileObject(o, p) == o.off = p.off /\ SameObject(o, p)
=============================================================================
