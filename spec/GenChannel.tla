----------------------------- MODULE GenChannel -----------------------------
EXTENDS Channels, Json, IOUtils, FiniteSets
(***************************************************************************)
(* Requests for noise channels: every type with probabilities inside, on   *)
(* and outside the boundary.  The specification says whether the request   *)
(* is admissible and, when the channel lies in the ring, which linear map  *)
(* it is.                                                                  *)
(***************************************************************************)
VARIABLES req, pc

ShardNo == atoi(IOEnv.SHARD)
NShards == atoi(IOEnv.NSHARDS)

One1 == {<<-1, 1>>, <<-1, 8>>, <<-1, 1024>>, <<0, 1>>, <<1, 8>>, <<9, 25>>, <<1, 2>>, <<16, 25>>, <<3, 4>>,
         <<7, 8>>, <<1, 1>>, <<1025, 1024>>, <<9, 8>>, <<2, 1>>}
Eighths == {-1, 0, 1, 3, 5, 8, 9}
\* probabilities close to a boundary, over a million
Fine == {<<-1, 1000000>>, <<1, 1000000>>, <<999999, 1000000>>, <<1000001, 1000000>>, <<1000100, 1000000>>}
\* Pauli probabilities adding up to almost or slightly more than one, with any zeros among them
FineSums == {<<x, y, s - x - y>> : s \in {999999, 1000000, 1000001, 1000100, 1005000, 1020000},
                                   x \in {0, 250000, 500000}, y \in {0, 1, 400000}}
\* Pauli probabilities in hundredths that add up to one
Hundredths == {t \in {<<x, y, 100 - x - y>> : x \in {1, 33, 34, 55, 56}, y \in 0..66} : t[3] >= 0}
Singles == {"BitFlip", "PhaseFlip", "Depolarizing", "AmplitudeDamping", "PhaseDamping"}
Requests ==
  {[ty |-> ty, pr |-> <<p>>] : ty \in Singles, p \in One1 \cup Fine}
  \cup {[ty |-> "GeneralizedAmplitudeDamping", pr |-> <<p, <<9, 25>>>>] : p \in Fine}
  \cup {[ty |-> "GeneralizedAmplitudeDamping", pr |-> <<<<1, 4>>, g>>] : g \in Fine}
  \cup {[ty |-> "PauliChannel", pr |-> [i \in 1..3 |-> <<t[q[i]], 1000000>>]] :
          t \in FineSums, q \in {<<1, 2, 3>>, <<3, 1, 2>>, <<2, 3, 1>>}}
  \cup {[ty |-> "PauliChannel", pr |-> [i \in 1..3 |-> <<t[i], 100>>]] : t \in Hundredths}
  \cup {[ty |-> "GeneralizedAmplitudeDamping", pr |-> <<p, g>>] : p, g \in One1}
  \cup {[ty |-> "PauliChannel", pr |-> <<<<x, 8>>, <<y, 8>>, <<z, 8>>>>] : x, y, z \in Eighths}

InUnit(p) == p[1] >= 0 /\ p[1] <= p[2]
Admissible(r) ==
  /\ \A i \in DOMAIN r.pr : InUnit(r.pr[i])
  /\ r.ty = "PauliChannel" => r.pr[1][1] + r.pr[2][1] + r.pr[3][1] <= r.pr[1][2]
\* Decimal fractions adding up to exactly one may add up to a little more in the
\* machine's numbers, so that both refusing and answering is right.
Brink(r) == r.ty = "PauliChannel" /\ r.pr[1][2] \in {100, 1000000}
            /\ r.pr[1][1] + r.pr[2][1] + r.pr[3][1] = r.pr[1][2]
\* is the channel in the ring?
Exact(r) ==
  CASE r.ty \in {"AmplitudeDamping", "PhaseDamping"} -> r.pr[1] \in DampingRates
    [] r.ty = "GeneralizedAmplitudeDamping" /\ r.pr[1] \in Fine -> FALSE
    [] r.ty = "GeneralizedAmplitudeDamping" -> r.pr[2] \in DampingRates
    [] OTHER -> TRUE

Hash(r) == 3 * Len(r.ty) + 5 * (r.pr[1][1] + 2) + (IF Len(r.pr) > 1 THEN 7 * (r.pr[2][1] + 2) ELSE 0)
             + (IF Len(r.pr) > 2 THEN 11 * (r.pr[3][1] + 2) ELSE 0)
Init == pc = "ask" /\ req \in {r \in Requests : Hash(r) % NShards = ShardNo}
Answer ==
  /\ pc = "ask" /\ UNCHANGED req
  /\ pc' = IF Admissible(req) THEN "granted" ELSE "refused"
  /\ PrintT("CASE " \o ToJson(
       [ty |-> req.ty, pr |-> req.pr, ok |-> Admissible(req), brink |-> Brink(req),
        ch |-> IF Admissible(req) /\ Exact(req) THEN <<MFlat(Channel(req))>> ELSE <<>>]))
Spec == Init /\ [][Answer]_<<req, pc>>

\* a granted channel preserves the trace
Keeps(m) == \A c \in 1..4 :
  ZAdd(m.m[1][c], m.m[4][c]) = IF c \in {1, 4} THEN <<m.d, 0, 0, 0>> ELSE ZZero
TracePreserving == (pc = "granted" /\ Exact(req)) => Keeps(Channel(req))
=============================================================================
