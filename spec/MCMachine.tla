----------------------------- MODULE MCMachine ------------------------------
EXTENDS Horqrux
(***************************************************************************)
(* The machine with a small alphabet, explored exhaustively with first and *)
(* second derivatives: every program of at most MaxLen operations on two   *)
(* wires, on a vector and on a density matrix.                             *)
(***************************************************************************)
CONSTANTS MaxLen, Noisy2
VARIABLE len

Op(nm, t, c, p, a) == [nm |-> nm, t |-> t, c |-> c, p |-> p, a |-> a, ps |-> <<>>, ns |-> <<>>]
Alphabet ==
  {Op("H", <<1>>, <<>>, "", <<0, 0>>), Op("X", <<2>>, <<1>>, "", <<0, 0>>),
   Op("ISQRTSWAP", <<2, 1>>, <<>>, "", <<0, 0>>), Op("T", <<2>>, <<>>, "", <<0, 0>>),
   Op("RX", <<1>>, <<>>, "a", <<0, 0>>), Op("RY", <<2>>, <<1>>, "a", <<0, 0>>),
   Op("PHASE", <<1>>, <<2>>, "b", <<0, 0>>), Op("RZ", <<2>>, <<>>, "", <<0, 1>>)}
  \cup IF ~Noisy2 THEN {} ELSE
  {[Op("RX", <<2>>, <<>>, "b", <<0, 0>>) EXCEPT !.ns = <<[ty |-> "AmplitudeDamping", pr |-> <<<<9, 25>>>>]>>],
   [Op("X", <<1>>, <<2>>, "", <<0, 0>>) EXCEPT !.ns = <<[ty |-> "BitFlip", pr |-> <<<<1, 2>>>>],
                                                       [ty |-> "PhaseDamping", pr |-> <<<<1, 2>>>>]>>]}

V0 == [d |-> 1, v |-> <<<<1, 0, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 0>>, <<-1, 0, 1, 0>>>>]
V1 == [d |-> 1, v |-> <<<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<1, 1, 0, 0>>, <<0, 0, 0, 0>>>>]
Env == [q \in {"a", "b"} |-> IF q = "a" THEN <<1, 0>> ELSE <<-3, 0>>]

Init == New /\ len = 0
DoPrepare == /\ len = 0 /\ UNCHANGED len
             /\ \E arr \in {V0, V1} : \/ Prepare(2, "vec", arr, Env, <<>>, {"a", "b"}, 2)
                                      \/ Prepare(2, "dm", AAdd(Outer(V0, V0), Outer(V1, V1)), Env, <<>>, {"a", "b"}, 2)
DoOperate == /\ ph = "run" /\ len < MaxLen /\ len' = len + 1
             /\ \E op \in Alphabet : \E j \in {TLCEval(StepJet(op))} : Operate(op, j, FALSE)
Spec == Init /\ [][DoPrepare \/ DoOperate]_<<vars, len>>
=============================================================================
