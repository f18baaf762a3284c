------------------------------ MODULE TraceAlu ------------------------------
(***************************************************************************)
(* Validation of recorded result tables of the arithmetic instructions:    *)
(* each row is one opcode and first operand with the results and flags the *)
(* implementation produced for a list of second operands (all 256 for byte *)
(* operations).                                                            *)
(***************************************************************************)
EXTENDS TeldaCpu, Json, IOUtils

Rows == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES id, done
vars == <<id, done>>

Keep(f) == f % 16
WithFlags(f, z, s, cy, v) == Keep(f) + 128 * B2I(z) + 64 * B2I(v) + 32 * B2I(s) + 16 * B2I(cy)

(* <<first destination, second destination (-1: none), flags, outcome>> *)
Expected(row, b) ==
  LET mn == Mnem(row.op)
      n == row.n
      a == row.a
  IN CASE mn = "mul" ->
            LET p == Mul(n, a, b)
            IN <<p.hi, p.lo, WithFlags(row.f, p.lo = 0, p.lo >= Mod(n) \div 2, p.hi # 0, p.hi # 0), NoTrap>>
       [] mn = "div" ->
            IF b = 0 THEN <<-1, -1, row.f, TZeroDiv>> ELSE <<a \div b, a % b, row.f, NoTrap>>
       [] OTHER -> LET q == Alu(n, mn, a, b)
                   IN <<q.res, -1, WithFlags(row.f, q.z, q.s, q.cy, q.v), NoTrap>>

Second(row, i) == IF row.n = 8 THEN i - 1 ELSE row.bs[i]

BadAt(row, i) ==
  LET e == Expected(row, Second(row, i))
      fl == IF row.o[i] = TZeroDiv THEN row.fl[i] - (row.fl[i] % 4) + (row.f % 4) ELSE row.fl[i]
  IN \/ row.o[i] # e[4]
     \/ e[1] >= 0 /\ row.d[i] # e[1]
     \/ e[2] >= 0 /\ row.e[i] # e[2]
     \/ fl # e[3]

BadIndices(row) == {i \in 1..Len(row.o) : BadAt(row, i)}

Init == id \in 1..Len(Rows) /\ done = FALSE
Check == ~done /\ done' = TRUE /\ id' = id
Spec == Init /\ [][Check]_vars

RowOK(row) ==
  LET bi == BadIndices(row)
  IN \/ bi = {}
     \/ LET i == CHOOSE j \in bi : \A l \in bi : j <= l
        IN PrintT(<<"MISMATCH", row.id, i, <<Mnem(row.op), "width", row.n, "operands", row.a, Second(row, i),
                    "expected", Expected(row, Second(row, i)),
                    "observed", <<row.d[i], row.e[i], row.fl[i], row.o[i]>> >> >>) /\ FALSE
Conforms == done => RowOK(Rows[id])
=============================================================================
