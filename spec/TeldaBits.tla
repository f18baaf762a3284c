----------------------------- MODULE TeldaBits -----------------------------
(***************************************************************************)
(* Bytes, wides (16 bit) and bit fields as integers.  TLC integers are 32  *)
(* bit signed, so nothing here forms a value of 2^31 or more.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

M8(x)  == x % 256
M16(x) == x % 65536
Lo(w)  == w % 256
Hi(w)  == w \div 256
Wide(l, h) == l + 256 * h
LE16(w) == <<w % 256, w \div 256>>
S8(x)  == IF x >= 128 THEN x - 256 ELSE x
S16(x) == IF x >= 32768 THEN x - 65536 ELSE x

Pow2 == [i \in 0..16 |-> 2^i]
BitSet(x, i) == (x \div Pow2[i]) % 2 = 1
B2I(b) == IF b THEN 1 ELSE 0

(* lower and upper half of a*b for 16 bit a, b, without leaving 32 bits *)
MulW(a, b) ==
  LET p == Lo(a) * Lo(b)
      q == Hi(a) * Lo(b) + Lo(a) * Hi(b)
      r == Hi(a) * Hi(b)
      s == p + q * 256
  IN  [lo |-> s % 65536, hi |-> r + s \div 65536]

AlignDown(a, n) == a - (a % n)
AlignUp(a, n)   == AlignDown(a + n - 1, n)

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

(* sequence helpers *)
Rep(v, n) == [i \in 1..n |-> v]
ConcatAll(ss) == FoldLeft(LAMBDA acc, s: acc \o s, <<>>, ss)
SumSeq(s) == FoldLeft(LAMBDA acc, v: acc + v, 0, s)
Indices(s) == [i \in 1..Len(s) |-> i]
=============================================================================
