------------------------------ MODULE MCWires -------------------------------
EXTENDS Semantics, FiniteSets
(***************************************************************************)
(* Why behaviours on few wires speak about registers of any size: the      *)
(* meaning of an operation does not depend on which wires it is put on,    *)
(* and it leaves the others alone.  For every gate, placement and set of   *)
(* controls, every basis state (hence, the maps being linear, every        *)
(* state), and every permutation of the wires:                             *)
(*   Equivariant  permuting the wires, then applying the relabelled        *)
(*                operation, equals applying it and then permuting         *)
(*   Spectator    with one more wire in any position and any state, the    *)
(*                operation acts on its own wires only                     *)
(*   Governed     with one more control in state 1 the operation acts as     *)
(*                before, with one in state 0 not at all                   *)
(*   SelfInverse  a gate of order two twice, or a rotation and the one by   *)
(*                the opposite angle, change nothing                       *)
(*   Conjugated   on a matrix unit a b^dagger the density-matrix meaning   *)
(*                is (U a) (U b)^dagger                                    *)
(*   Linear on scalars is built in: arrays are combined by AAdd, AScale.   *)
(***************************************************************************)
CONSTANT N
VARIABLES op, basis, perm, out
vars == <<op, basis, perm, out>>

Inj(nn, k) == {f \in [1..k -> 1..nn] : \A a, b \in 1..k : a # b => f[a] # f[b]}
Targets(nm) == IF nm \in StaticNames2 THEN 2 ELSE 1
\* two commuting groups, the second of two anticommuting strings
Evo == <<<<[w |-> <<1, 1>>, ps |-> <<"Z", "Z">>]>>,
         <<[w |-> <<3, 5>>, ps |-> <<"X", "X">>], [w |-> <<-4, 5>>, ps |-> <<"Y", "X">>]>>>>
Ops == UNION {{[nm |-> nm, t |-> SubSeq(f, 1, Targets(nm)), c |-> SubSeq(f, Targets(nm) + 1, Targets(nm) + k),
                p |-> "", a |-> <<1, 1>>, ps |-> <<>>, ns |-> <<>>] : f \in Inj(N, Targets(nm) + k)}
              : nm \in StaticNames1 \cup StaticNames2 \cup ParamNames1, k \in 0..1}
       \cup {[nm |-> "HEVO", t |-> SubSeq(f, 1, 2), c |-> SubSeq(f, 3, 2 + k),
               p |-> "", a |-> <<1, 1>>, ps |-> <<Evo[2]>>, ns |-> <<>>] : k \in 0..1, f \in Inj(N, 3)}
Good == {o \in Ops : Len(o.t) + Len(o.c) <= N}

\* array with wire w moved to wire p[w]
Permute(p, nn, a) ==
  [d |-> a.d, v |-> TLCEval([i \in 1..P2(nn) |->
     LET src == RowOf(p, nn, nn, i)      \* wire w of the source has the bit of wire p[w] of i
     IN  a.v[src]])]
Relabel(p, o) == [o EXCEPT !.t = [k \in DOMAIN @ |-> p[@[k]]], !.c = [k \in DOMAIN @ |-> p[@[k]]]]

NoOut == AZero(1)
Init == /\ op \in Good /\ basis \in 0..(P2(N) - 1) /\ perm \in Inj(N, N) /\ out = NoOut
Apply == /\ out = NoOut /\ out' = TLCEval(GateVec(op, <<>>, N, Basis(N, basis))) /\ UNCHANGED <<op, basis, perm>>
Spec == Init /\ [][Apply]_vars

Done == out # NoOut
Equivariant ==
  Done => AEq(Permute(perm, N, out), GateVec(Relabel(perm, op), <<>>, N, Permute(perm, N, Basis(N, basis))))
\* one more wire: position pos of N + 1 holds an extra qubit with amplitudes 1 and w
Extra(pos, a) ==
  [d |-> a.d, v |-> TLCEval([i \in 1..P2(N + 1) |->
     LET ws == [w \in 1..N |-> IF w < pos THEN w ELSE w + 1]
         x == a.v[RowOf(ws, N + 1, N, i)]
     IN  IF Bit(i, pos, N + 1) = 0 THEN x ELSE ZMul(ZRoot(1), x)])]
Spectator ==
  (Done /\ perm = [w \in 1..N |-> w]) =>
     \A pos \in 1..(N + 1) :
        AEq(Extra(pos, out),
            GateVec(Relabel([w \in 1..N |-> IF w < pos THEN w ELSE w + 1], op), <<>>, N + 1, Extra(pos, Basis(N, basis))))
\* one more wire, in the basis state b
Put(pos, b, a) ==
  [d |-> a.d, v |-> TLCEval([i \in 1..P2(N + 1) |->
     LET ws == [w \in 1..N |-> IF w < pos THEN w ELSE w + 1]
     IN  IF Bit(i, pos, N + 1) = b THEN a.v[RowOf(ws, N + 1, N, i)] ELSE ZZero])]
Governed ==
  (Done /\ perm = [w \in 1..N |-> w]) =>
     \A pos \in 1..(N + 1) :
        LET o == Relabel([w \in 1..N |-> IF w < pos THEN w ELSE w + 1], op)
            g == [o EXCEPT !.c = Append(@, pos)]
            b == Basis(N, basis)
        IN  /\ AEq(Put(pos, 1, out), GateVec(g, <<>>, N + 1, Put(pos, 1, b)))
            /\ AEq(Put(pos, 0, b), GateVec(g, <<>>, N + 1, Put(pos, 0, b)))
SelfInverse ==
  (Done /\ perm = [w \in 1..N |-> w]) =>
     /\ op.nm \in {"I", "X", "Y", "Z", "H", "SWAP"} => AEq(GateVec(op, <<>>, N, out), Basis(N, basis))
     /\ op.nm \in ParamNames1 => AEq(GateVec([op EXCEPT !.a = <<-op.a[1], -op.a[2]>>], <<>>, N, out), Basis(N, basis))
Conjugated ==
  (Done /\ perm = [w \in 1..N |-> w]) =>
     \A b \in {0, basis, P2(N) - 1} :
        AEq(GateDM(op, <<>>, N, Outer(Basis(N, basis), Basis(N, b))), Outer(out, GateVec(op, <<>>, N, Basis(N, b))))
=============================================================================
