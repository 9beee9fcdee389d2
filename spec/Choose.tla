------------------------------- MODULE Choose -------------------------------
EXTENDS Horqrux, Json
(***************************************************************************)
(* Random choices of operations, states and observables, for TLC's         *)
(* simulation mode.  conf says what may be chosen; it is a constant set by *)
(* each generator.                                                         *)
(***************************************************************************)
CONSTANT conf

R(S) == RandomElement(S)
RS(seq) == seq[RandomElement(DOMAIN seq)]
Coin(k) == RandomElement(1..k) = 1

Inj(nn, k) == {s \in [1..k -> 1..nn] : \A i, j \in 1..k : i # j => s[i] # s[j]}
Take(s, k) == SubSeq(s, 1, k)
Drop(s, k) == SubSeq(s, k + 1, Len(s))

\* A function of random choices is evaluated at once (TLCEval): left to itself
\* TLC would choose again at every use.
\* Random choices take an argument, which they ignore: TLC evaluates operators
\* without arguments only once.
Angle(x) == <<R(-7..8), IF Coin(3) THEN RS(conf.ms) ELSE 0>>

DampSet == {<<9, 25>>, <<16, 25>>, <<3, 4>>, <<1, 2>>}
ProbSet == {<<1, 4>>, <<1, 2>>, <<1, 8>>, <<3, 4>>}
EdgeSet == {<<0, 1>>, <<1, 1>>}
\* close to the edges
NearSet == {<<1, 128>>, <<1, 256>>, <<127, 128>>}
Prob(x) == R(IF Coin(5) THEN EdgeSet ELSE IF Coin(5) THEN NearSet ELSE ProbSet)
Damp(x) == R(IF Coin(5) THEN EdgeSet ELSE DampSet)
NoiseInstance(x) ==
  LET ty == R(NoiseTypes)
  IN  [ty |-> ty,
       pr |-> CASE ty \in {"BitFlip", "PhaseFlip"} -> <<Prob(0)>>
                [] ty = "Depolarizing" -> <<R({<<3, 4>>, <<3, 8>>, <<0, 1>>, <<3, 256>>})>>
                [] ty = "PauliChannel" ->
                     R({<<<<1, 8>>, <<2, 8>>, <<3, 8>>>>, <<<<0, 4>>, <<1, 4>>, <<2, 4>>>>,
                        <<<<1, 4>>, <<0, 4>>, <<3, 4>>>>, <<<<2, 4>>, <<1, 4>>, <<0, 4>>>>})
                [] ty \in {"AmplitudeDamping", "PhaseDamping"} -> <<Damp(0)>>
                [] ty = "GeneralizedAmplitudeDamping" -> <<Prob(0), Damp(0)>>]
\* now and then the same channel twice
NoiseSeq(k) ==
  LET ns == TLCEval([i \in 1..k |-> NoiseInstance(i)])
  IN  IF Coin(4) THEN TLCEval([i \in 1..k + 1 |-> ns[IF i > k THEN 1 ELSE i]]) ELSE ns

PauliString(k) == TLCEval([i \in 1..k |-> R({"X", "Y", "Z", "I"})])

W(num, den, p) == [w |-> <<num, den>>, ps |-> p]
\* a Hamiltonian on k wires: one string, two commuting strings, or two weighted
\* anticommuting strings
Groups(k) ==
  LET p == PauliString(k)
      q == PauliString(k)
  IN  IF AntiCommute(p, q) THEN <<<<W(3, 5, p), W(-4, 5, q)>>>>
      ELSE IF Coin(3) THEN <<<<W(1, 1, p)>>>>
      ELSE <<<<W(1, 1, p)>>, <<W(-1, 1, q)>>>>

NTargets(nm) == IF nm \in StaticNames2 THEN 2 ELSE 1

\* Wires of an operation on nn wires; with conf.sticky often those of the last
\* operation `last` (a sequence of at most one operation), if they fit
Wires(nn, k, c, last) ==
  IF conf.sticky /\ last # <<>> /\ Len(last[1].t) = k /\ ~Coin(3)
  THEN IF Len(last[1].c) = c \/ Coin(2)
       THEN last[1].t \o last[1].c
       ELSE last[1].t
  ELSE R(Inj(nn, k + c))

\* A random operation on nn wires
RandOp(nn, last) ==
  LET nm0 == RS(conf.names)
      nm == IF nn = 1 /\ (nm0 \in StaticNames2) THEN "H" ELSE nm0
      k == IF nm = "HEVO" THEN R(1..(IF nn < 3 THEN nn ELSE 3)) ELSE NTargets(nm)
      room == nn - k
      mc == IF conf.ctl < room THEN conf.ctl ELSE room
      c == IF mc > 4 /\ Coin(3) THEN mc ELSE IF mc > 0 /\ ~Coin(2) THEN R(1..mc) ELSE 0
      ws == Wires(nn, k, c, last)
      par == (nm \in ParamNames1) /\ conf.params # {} /\ ~Coin(4)
  IN  [nm |-> nm, t |-> Take(ws, k), c |-> Drop(ws, k),
       p |-> IF nm = "HEVO" /\ "t" \in conf.params THEN "t" ELSE IF par THEN R(conf.params \ {"t"}) ELSE "",
       a |-> IF nm \in ParamNames1 \cup {"HEVO"} THEN Angle(0) ELSE <<0, 0>>,
       ps |-> IF nm = "HEVO" THEN Groups(k) ELSE <<>>,
       ns |-> IF conf.noise > 0 /\ k = 1 /\ Coin(conf.noise) THEN NoiseSeq(R(1..2)) ELSE <<>>]

\* Small Gaussian integers as amplitudes
Small == {<<a, 0, b, 0>> : a, b \in -2..2}
RealSmall == {<<a, 0, 0, 0>> : a \in -2..2}
\* now and then with real amplitudes only
GenericVec(nn) ==
  LET S == IF Coin(5) THEN RealSmall ELSE Small
  IN  [d |-> 1, v |-> TLCEval([i \in 1..P2(nn) |-> IF i = 1 THEN <<1, 0, IF S = Small THEN R(0..1) ELSE 0, 0>> ELSE R(S)])]
\* Amplitudes of very different size: some outcomes are rare
RareVec(nn) ==
  LET big == R(1..P2(nn))
  IN  [d |-> 1, v |-> TLCEval([i \in 1..P2(nn) |-> IF i = big THEN <<R({9, 11, 13}), 0, R(0..1), 0>>
                                                 ELSE R({<<1, 0, 0, 0>>, <<0, 0, -1, 0>>, <<2, 0, 1, 0>>, <<0, 0, 0, 0>>})])]
\* Amplitudes so different that the smaller ones are easily lost
TinyVec(nn) ==
  LET big == R(1..P2(nn))
  IN  [d |-> 1, v |-> TLCEval([i \in 1..P2(nn) |-> IF i = big THEN <<R({4001, 5003}), 0, R({0, 7}), 0>>
                                                 ELSE R({<<1, 0, 0, 0>>, <<0, 0, -1, 0>>, <<2, 0, 1, 0>>})])]
\* A mixture of two or three such vectors
GenericDM(nn) ==
  LET a == TLCEval(GenericVec(nn))
      b == TLCEval(GenericVec(nn))
  IN  AAdd(Outer(a, a), Outer(b, b))
InitVec(nn) ==
  CASE conf.init = "zero" -> Basis(nn, 0)
    [] conf.init = "basis" -> Basis(nn, R(0..(P2(nn) - 1)))
    [] conf.init = "generic" -> GenericVec(nn)
    [] conf.init = "rare" -> RareVec(nn)
    [] conf.init = "tiny" -> TinyVec(nn)
InitArray(nn, md) ==
  IF md = "vec" THEN InitVec(nn)
  ELSE IF conf.init = "generic" THEN GenericDM(nn)
  ELSE LET a == TLCEval(InitVec(nn)) IN Outer(a, a)

(***************************************************************************)
(* Observables                                                             *)
(***************************************************************************)
OpNode(nm, t, c) == [k |-> "op", o |-> [nm |-> nm, t |-> t, c |-> c, p |-> "", a |-> <<0, 0>>,
                                       ps |-> <<>>, ns |-> <<>>]]
Pauli(w) == OpNode(R({"X", "Y", "Z"}), <<w>>, <<>>)
PauliSeq(nn) ==
  LET k == R(1..nn)
      ws == R(Inj(nn, k))
  IN  TLCEval([i \in 1..k |-> Pauli(ws[i])])
Ratio(x) == R({<<3, 2>>, <<-1, 2>>, <<2, 1>>, <<-3, 1>>, <<1, 4>>})
HermOp(nn) ==
  IF nn >= 2 /\ Coin(5)
  THEN LET ws == R(Inj(nn, 2))
       IN  IF Coin(2) THEN OpNode("SWAP", ws, <<>>) ELSE OpNode(R({"X", "Z", "Y"}), <<ws[1]>>, <<ws[2]>>)
  ELSE IF Coin(6) THEN OpNode("H", <<R(1..nn)>>, <<>>) ELSE Pauli(R(1..nn))

\* now and then the same term twice
Repeated(xs) == IF Coin(6) THEN Append(xs, xs[1]) ELSE xs
RECURSIVE HermNode(_, _)
HermNode(nn, d) ==
  IF d = 0 THEN HermOp(nn)
  ELSE LET c == R(1..6)
       IN CASE c = 1 -> HermOp(nn)
            [] c = 2 -> [k |-> "seq", xs |-> PauliSeq(nn)]
            [] c = 3 -> [k |-> "scale", xs |-> <<HermNode(nn, d - 1)>>, r |-> Ratio(0), p |-> ""]
            [] c = 4 -> [k |-> "scale", xs |-> PauliSeq(nn), r |-> Ratio(0),
                         p |-> IF conf.sparams = {} THEN "" ELSE R(conf.sparams)]
            [] c = 5 -> [k |-> "add", xs |-> Repeated(TLCEval([i \in 1..R(1..3) |-> HermNode(nn, d - 1)]))]
            [] c = 6 -> [k |-> "scale", xs |-> <<[k |-> "add", xs |-> TLCEval([i \in 1..2 |-> HermNode(nn, d - 1)])]>>,
                         r |-> Ratio(0), p |-> IF conf.sparams = {} THEN "" ELSE R(conf.sparams)]
\* An observable is a sum of terms
HermObs(nn) == [k |-> "add", xs |-> Repeated(TLCEval([i \in 1..R(1..conf.terms) |-> HermNode(nn, IF conf.terms > 3 THEN 1 ELSE 2)]))]

\* An observable that differs from another one in a detail
RECURSIVE HasScale(_)
HasScale(nd) == nd.k = "scale" \/ (nd.k # "op" /\ \E k \in DOMAIN nd.xs : HasScale(nd.xs[k]))
RECURSIVE TwistNode(_)
TwistNode(nd) ==
  CASE nd.k = "op" -> IF nd.o.nm \in {"X", "Y", "Z"} THEN [nd EXCEPT !.o.nm = R({"X", "Y", "Z"})] ELSE nd
    [] nd.k = "scale" /\ (nd.p = "" \/ conf.sparams = {}) -> [nd EXCEPT !.r = Ratio(0)]
    [] nd.k = "scale" -> [nd EXCEPT !.p = R(conf.sparams)]
    [] OTHER -> LET ks == {k \in DOMAIN nd.xs : HasScale(nd.xs[k])}
                    k == R(IF ks # {} THEN ks ELSE DOMAIN nd.xs)
                IN  [nd EXCEPT !.xs[k] = TwistNode(@)]
\* A list of observables, some of which resemble each other
RECURSIVE HermList(_, _)
HermList(nn, k) ==
  IF k = 0 THEN <<>>
  ELSE LET rest == TLCEval(HermList(nn, k - 1))
       IN  Append(rest, TLCEval(IF rest # <<>> /\ Coin(2) THEN TwistNode(rest[R(DOMAIN rest)]) ELSE HermObs(nn)))

(***************************************************************************)
(* Keeping away from overflow: the coordinates of every array stay small   *)
(***************************************************************************)
Fits(j, md) ==
  LET cap == IF md = "vec" THEN conf.capv ELSE conf.capd
      ok(a) == a.d <= cap /\ AMax(a) <= cap
  IN  ok(j.v) /\ (\A q \in DOMAIN j.d1 : ok(j.d1[q])) /\ (\A q \in DOMAIN j.d2 : ok(j.d2[q]))
=============================================================================
