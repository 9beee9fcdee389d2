----------------------------- MODULE GenStates ------------------------------
EXTENDS Register, Json, IOUtils, FiniteSets
(***************************************************************************)
(* State helpers: product states for every bitstring, zero and uniform     *)
(* states, and every pair of small one- and two-wire states with their     *)
(* inner product, overlap and equivalence.                                 *)
(***************************************************************************)
CONSTANT Deep
VARIABLES req, pc

ShardNo == atoi(IOEnv.SHARD)
NShards == atoi(IOEnv.NSHARDS)

Strings == UNION {[1..k -> 0..1] : k \in 1..(IF Deep THEN 7 ELSE 5)}
Amp1 == {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<-1, 0, 0, 0>>, <<0, 0, 1, 0>>, <<1, 0, -1, 0>>, <<0, 1, 0, 0>>,
         <<2, 0, 0, 0>>}
Amp2 == {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<0, 0, -1, 0>>}
Vecs(k) == {v \in [1..P2(k) -> IF k = 1 THEN Amp1 ELSE Amp2] : \E i \in DOMAIN v : v[i] # ZZero}
Phase(k, v) == [i \in DOMAIN v |-> ZMul(ZRoot(k), v[i])]

H4(z) == z[1] + 3 * z[2] + 5 * z[3] + 7 * z[4]
HashV(v) == LET RECURSIVE f(_)
                f(k) == IF k = 0 THEN 0 ELSE (3 * f(k - 1) + H4(v[k])) % 10007
            IN f(Len(v))
Mine(h, every) == h % (NShards * every) = ShardNo
Every1 == IF Deep THEN 1 ELSE 3
Every2 == IF Deep THEN 1 ELSE 12

Products == {[what |-> "product", bits |-> s] : s \in {t \in Strings : (Len(t) + t[1] + 2 * t[Len(t)]) % NShards = ShardNo}}
Uniforms == {[what |-> "uniform", n |-> k] : k \in {j \in 1..14 : j % NShards = ShardNo}}
Pairs ==
  UNION {{[what |-> "pair", n |-> k, a |-> a, b |-> b] :
            b \in {x \in Vecs(k) : Mine(HashV(a) + 31 * HashV(x), IF k = 1 THEN Every1 ELSE Every2)}}
         : a \in Vecs(1), k \in {1}}
  \cup
  UNION {{[what |-> "pair", n |-> 2, a |-> a, b |-> b] :
            b \in {x \in Vecs(2) : Mine(HashV(a) + 31 * HashV(x), Every2)}} : a \in Vecs(2)}
Phases == {[what |-> "pair", n |-> 1, a |-> a, b |-> Phase(k, a)] : a \in {x \in Vecs(1) : Mine(HashV(x), 1)}, k \in 1..7}

Arr(v) == [d |-> 1, v |-> v]
Inner(a, b) == AInner(Arr(a), Arr(b))
\* |<a|b>|^2 as a real number
Overlap(a, b) == LET z == Inner(a, b).v[1] IN AReal([d |-> 1, v |-> <<ZMul(ZConj(z), z)>>])
Norm(a) == AReal(Inner(a, a))
RMul(x, y) == [d |-> x.d * y.d, p |-> x.p * y.p + 2 * x.q * y.q, q |-> x.p * y.q + x.q * y.p]
REq(x, y) == x.p * y.d = y.p * x.d /\ x.q * y.d = y.q * x.d
\* the same ray: Cauchy-Schwarz holds with equality
Same(a, b) == REq(Overlap(a, b), RMul(Norm(a), Norm(b)))
RealArr(r) == <<r.d, r.p, r.q>>

\* 2^(-n/2) as an array entry
UniformAmp(k) == IF k % 2 = 0 THEN [d |-> P2(k \div 2), v |-> <<ZOne>>]
                 ELSE [d |-> P2((k + 1) \div 2), v |-> <<ZSqrt2>>]

RECURSIVE Index(_, _)
Index(s, k) == IF k = 0 THEN 0 ELSE 2 * Index(s, k - 1) + s[k]
Answer(r) ==
  CASE r.what = "product" -> [what |-> "product", bits |-> r.bits, array |-> Basis(Len(r.bits), Index(r.bits, Len(r.bits)))]
    [] r.what = "uniform" -> [what |-> "uniform", n |-> r.n, amp |-> UniformAmp(r.n)]
    [] r.what = "pair" ->
         [what |-> "pair", n |-> r.n, a |-> Arr(r.a), b |-> Arr(r.b), inner |-> Inner(r.a, r.b),
          overlap |-> RealArr(Overlap(r.a, r.b)), na |-> RealArr(Norm(r.a)), nb |-> RealArr(Norm(r.b)),
          same |-> Same(r.a, r.b),
          rho |-> Outer(Arr(r.a), Arr(r.a)),
          probs |-> [i \in DOMAIN r.a |-> RealArr(AReal([d |-> 1, v |-> <<ZMul(ZConj(r.a[i]), r.a[i])>>]))]]

Init == pc = "ask" /\ req \in Products \cup Uniforms \cup Pairs \cup Phases
Tell == pc = "ask" /\ pc' = "told" /\ UNCHANGED req /\ PrintT("CASE " \o ToJson(Answer(req)))
Spec == Init /\ [][Tell]_<<req, pc>>

\* a state is the same ray as any of its phase multiples, and Cauchy-Schwarz holds
CauchySchwarz ==
  req.what = "pair" =>
    LET x == Overlap(req.a, req.b)
        y == RMul(Norm(req.a), Norm(req.b))
        dp == y.p * x.d - x.p * y.d     \* y - x >= 0, as dp + dq sqrt(2)
        dq == y.q * x.d - x.q * y.d
    IN  \/ dp >= 0 /\ dq >= 0
        \/ dp >= 0 /\ dq < 0 /\ dp * dp >= 2 * dq * dq
        \/ dp < 0 /\ dq > 0 /\ 2 * dq * dq >= dp * dp
Exchange == req.what = "pair" => REq(Overlap(req.a, req.b), Overlap(req.b, req.a))
=============================================================================
