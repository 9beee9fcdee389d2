------------------------------- MODULE GenHea -------------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
(***************************************************************************)
(* The hardware-efficient ansatz: in every layer, every qubit in turn gets *)
(* the rotations of the list in order, followed by a ring of NOTs in which *)
(* every qubit controls its successor.  Every rotation has its own         *)
(* parameter.                                                              *)
(***************************************************************************)
VARIABLES size, gates, at, pc
hvars == <<size, gates, at, pc>>

ShardNo == atoi(IOEnv.SHARD)
NShards == atoi(IOEnv.NSHARDS)
Rots == {"RX", "RY", "RZ"}
Lists == {<<>>} \cup {<<a>> : a \in Rots} \cup {<<a, b>> : a, b \in Rots} \cup {<<a, b, c>> : a, b, c \in Rots}
\* longer lists, in which rotations necessarily recur
Long == {<<a, b, c, d>> : a, b, c, d \in Rots} \cup {<<a, b, a, b, c>> : a, b, c \in Rots}
          \cup {<<a, a, b, c, b, a>> : a, b, c \in Rots}
Sizes == [n : 2..5, L : 0..3, rots : Lists] \cup [n : {2, 3}, L : {1, 2}, rots : Long]
           \cup [n : {6, 9}, L : {1, 2}, rots : {<<"RX", "RY", "RX">>, <<"RZ">>}]
           \cup [n : {2, 3}, L : {5, 8}, rots : {<<"RX", "RY", "RX">>, <<"RY", "RY">>}]
Hash(s) == s.n + 3 * s.L + 5 * Len(s.rots)
             + (IF Len(s.rots) > 0 /\ s.rots[1] = "RX" THEN 1 ELSE 0)
             + (IF Len(s.rots) > 1 /\ s.rots[2] = "RY" THEN 2 ELSE 0)
             + (IF Len(s.rots) > 2 /\ s.rots[3] = "RZ" THEN 4 ELSE 0)

Init == /\ size \in {s \in Sizes : Hash(s) % NShards = ShardNo}
        /\ gates = <<>> /\ at = [layer |-> 1, q |-> 1] /\ pc = "build"
Ring(n) == [i \in 1..n |-> [nm |-> "NOT", t |-> (i % n) + 1, c |-> i]]
Block(q) == [i \in DOMAIN size.rots |-> [nm |-> size.rots[i], t |-> q, c |-> 0]] \o Ring(size.n)
Build == /\ pc = "build" /\ at.layer <= size.L
         /\ gates' = gates \o Block(at.q)
         /\ at' = IF at.q = size.n THEN [layer |-> at.layer + 1, q |-> 1] ELSE [at EXCEPT !.q = @ + 1]
         /\ UNCHANGED <<size, pc>>
Report == /\ pc = "build" /\ at.layer > size.L /\ pc' = "done" /\ UNCHANGED <<size, gates, at>>
          /\ PrintT("CASE " \o ToJson([n |-> size.n, layers |-> size.L, rots |-> size.rots, gates |-> gates]))
Spec == Init /\ [][Build \/ Report]_hvars

Count(nm) == LET RECURSIVE f(_)
                 f(k) == IF k = 0 THEN 0 ELSE f(k - 1) + (IF gates[k].nm = nm THEN 1 ELSE 0)
             IN f(Len(gates))
Counts ==
  pc = "done" =>
    /\ Count("NOT") = size.L * size.n * size.n
    /\ Count("RX") + Count("RY") + Count("RZ") = size.L * size.n * Len(size.rots)
=============================================================================
