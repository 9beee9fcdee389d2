------------------------------ MODULE Register ------------------------------
EXTENDS Ring, Integers, Sequences, TLC, FiniteSets
(***************************************************************************)
(* Action of an operator on selected wires of a register.                  *)
(*                                                                         *)
(* A register of n wires is an array of 2^n numbers; wire 1 is the most    *)
(* significant bit of the (0-based) index.  A matrix is a record [d, m]:   *)
(* a denominator and a sequence of rows of numbers of the ring.            *)
(***************************************************************************)

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024>>
P2(k) == Pow2[k + 1]

Bit(i, w, n) == ((i - 1) \div P2(n - w)) % 2

RECURSIVE OffsetOf(_, _, _, _)
\* contribution to the index of setting wires ws[1..k] to the bits of j-1
OffsetOf(ws, n, k, j) ==
  IF k = 0 THEN 0
  ELSE OffsetOf(ws, n, k - 1, ((j - 1) \div 2) + 1) + ((j - 1) % 2) * P2(n - ws[k])

Offsets(ws, n) == TLCEval([j \in 1..P2(Len(ws)) |-> OffsetOf(ws, n, Len(ws), j)])

RECURSIVE RowOf(_, _, _, _)
RowOf(ws, n, k, i) == IF k = 0 THEN 1
                      ELSE 2 * (RowOf(ws, n, k - 1, i) - 1) + Bit(i, ws[k], n) + 1

RECURSIVE RowDot(_, _, _, _, _)
RowDot(row, base, off, v, j) ==
  IF j = 0 THEN ZZero
  ELSE IF row[j] = ZZero THEN RowDot(row, base, off, v, j - 1)
  ELSE ZAdd(RowDot(row, base, off, v, j - 1), ZMul(row[j], v[base + off[j]]))

\* The matrix applied to wires ws where all of wires cs are 1; elsewhere the
\* array is kept (keep) or set to zero.
ApplyGen(mat, ws, cs, n, a, keep) ==
  LET off == Offsets(ws, n)
      dim == P2(Len(ws))
      out == TLCEval([i \in 1..P2(n) |->
        IF \A c \in DOMAIN cs : Bit(i, cs[c], n) = 1
        THEN LET r == RowOf(ws, n, Len(ws), i)
             IN  RowDot(mat.m[r], i - off[r], off, a.v, dim)
        ELSE IF keep THEN ZScale(mat.d, a.v[i]) ELSE ZZero])
  IN  Reduce([d |-> a.d * mat.d, v |-> out])

ApplyMat(mat, ws, cs, n, a) == ApplyGen(mat, ws, cs, n, a, TRUE)
ApplyOnly(mat, ws, cs, n, a) == ApplyGen(mat, ws, cs, n, a, FALSE)

MConj(mat) == [d |-> mat.d, m |-> [r \in DOMAIN mat.m |->
                [c \in DOMAIN mat.m[r] |-> ZConj(mat.m[r][c])]]]
MDagger(mat) == [d |-> mat.d, m |-> [r \in DOMAIN mat.m |->
                [c \in DOMAIN mat.m[r] |-> ZConj(mat.m[c][r])]]]
MScale(num, den, mat) == [d |-> mat.d * den, m |-> [r \in DOMAIN mat.m |->
                [c \in DOMAIN mat.m[r] |-> ZMul(num, mat.m[r][c])]]]
MFlat(mat) == [d |-> mat.d, v |-> TLCEval([k \in 1..(Len(mat.m) * Len(mat.m)) |->
                mat.m[((k - 1) \div Len(mat.m)) + 1][((k - 1) % Len(mat.m)) + 1]])]

Basis(n, k) == [d |-> 1, v |-> [i \in 1..P2(n) |-> IF i = k + 1 THEN ZOne ELSE ZZero]]

\* A density matrix on n wires is an array on 2n wires, rows first.
Shift(ws, n) == [i \in DOMAIN ws |-> ws[i] + n]
Outer(a, b) == \* a b^dagger
  LET len == Len(a.v)
  IN  Reduce([d |-> a.d * b.d,
              v |-> TLCEval([k \in 1..(len * len) |->
                      ZMul(a.v[((k - 1) \div len) + 1], ZConj(b.v[((k - 1) % len) + 1]))])])
Left(mat, ws, cs, n, rho)      == ApplyMat(mat, ws, cs, 2 * n, rho)
Right(mat, ws, cs, n, rho)     == ApplyMat(MConj(mat), Shift(ws, n), Shift(cs, n), 2 * n, rho)
LeftOnly(mat, ws, cs, n, rho)  == ApplyOnly(mat, ws, cs, 2 * n, rho)
RightOnly(mat, ws, cs, n, rho) == ApplyOnly(MConj(mat), Shift(ws, n), Shift(cs, n), 2 * n, rho)

Trace(n, rho) == \* a one-element array
  [d |-> rho.d, v |-> <<ZSum([i \in 1..P2(n) |-> rho.v[(i - 1) * P2(n) + i]], P2(n))>>]
Hermitian(n, rho) ==
  \A i, j \in 1..P2(n) :
    rho.v[(i - 1) * P2(n) + j] = ZConj(rho.v[(j - 1) * P2(n) + i])
=============================================================================
