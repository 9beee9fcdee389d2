----------------------------- MODULE MCCompile ------------------------------
EXTENDS Semantics
(***************************************************************************)
(* The two optimisations a program passes through before execution, loop   *)
(* iteration by loop iteration, for every short program over an alphabet:  *)
(*   group   runs of uncontrolled single-wire gates are sorted by wire  *)
(*   merge   (noiseless programs only) from the back, neighbours with the  *)
(*           same targets and controls are multiplied                      *)
(* At every iteration what is done and what is left to do amount to the    *)
(* program.                                                                *)
(***************************************************************************)
CONSTANTS MaxLen, N
VARIABLES pc, prog, pos, batch, grp, last, out
vars == <<pc, prog, pos, batch, grp, last, out>>

Op(nm, t, c) == [nm |-> nm, t |-> t, c |-> c, p |-> "", a |-> <<1, 0>>, ps |-> <<>>, ns |-> <<>>]
Alphabet ==
  {Op("H", <<1>>, <<>>), Op("T", <<1>>, <<>>), Op("RY", <<2>>, <<>>), Op("X", <<2>>, <<1>>), Op("Z", <<2>>, <<1>>),
   Op("ISQRTSWAP", <<1, 2>>, <<>>), Op("SQRTSWAP", <<2, 1>>, <<>>), Op("PHASE", <<1>>, <<2>>),
   [Op("S", <<1>>, <<>>) EXCEPT !.ns = <<[ty |-> "AmplitudeDamping", pr |-> <<<<9, 25>>>>]>>]}
  \cup IF N < 3 THEN {} ELSE {Op("H", <<3>>, <<>>), Op("X", <<2>>, <<3>>), Op("X", <<2>>, <<3, 1>>)}

RECURSIVE Progs(_)
Progs(k) == IF k = 0 THEN {<<>>} ELSE Progs(k - 1) \cup {Append(p, o) : p \in {q \in Progs(k - 1) : Len(q) = k - 1}, o \in Alphabet}

Noiseless(ops) == \A k \in DOMAIN ops : ops[k].ns = <<>>
Single(o) == o.c = <<>> /\ Len(o.t) = 1
\* stable sort by wire
RECURSIVE ByWire(_, _)
ByWire(s, w) == IF w > N THEN <<>> ELSE SelectSeq(s, LAMBDA o : o.t[1] = w) \o ByWire(s, w + 1)
SortBatch(s) == ByWire(s, 1)

Start == /\ prog \in Progs(MaxLen) /\ pc = "group" /\ pos = 1 /\ batch = <<>> /\ grp = <<>>
         /\ last = <<>> /\ out = <<>>
Item(o) == [m |-> Matrix(o.nm, o.a), t |-> o.t, c |-> o.c, ns |-> o.ns]

GroupOne ==
  /\ pc = "group" /\ pos <= Len(prog) /\ pos' = pos + 1
  /\ IF Single(prog[pos])
     THEN batch' = Append(batch, prog[pos]) /\ UNCHANGED grp
     ELSE /\ grp' = Append(grp \o SortBatch(batch), prog[pos])
          /\ batch' = <<>>
  /\ UNCHANGED <<pc, prog, last, out>>
GroupEnd ==
  /\ pc = "group" /\ pos > Len(prog)
  /\ grp' = grp \o SortBatch(batch) /\ batch' = <<>>
  /\ IF Noiseless(prog) /\ Len(prog) >= 2
     THEN /\ pc' = "merge" /\ pos' = Len(prog) - 1
          /\ last' = <<Item(grp'[Len(prog)])>> /\ out' = <<>>
     ELSE /\ pc' = "done" /\ pos' = 0 /\ last' = <<>>
          /\ out' = [k \in DOMAIN grp' |-> Item(grp'[k])]
  /\ UNCHANGED prog

MMul(a, b) ==
  LET dim == Len(a.m)
  IN  [d |-> a.d * b.d,
       m |-> TLCEval([r \in 1..dim |-> [c \in 1..dim |->
               ZSum([k \in 1..dim |-> ZMul(a.m[r][k], b.m[k][c])], dim)]])]
MergeOne ==
  /\ pc = "merge" /\ pos >= 1 /\ pos' = pos - 1
  /\ LET x == Item(grp[pos])
     IN  IF x.t = last[1].t /\ x.c = last[1].c
         THEN last' = <<[last[1] EXCEPT !.m = MMul(@, x.m)]>> /\ UNCHANGED out
         ELSE last' = <<x>> /\ out' = last \o out
  /\ UNCHANGED <<pc, prog, batch, grp>>
MergeEnd ==
  /\ pc = "merge" /\ pos = 0
  /\ pc' = "done" /\ out' = last \o out /\ last' = <<>>
  /\ UNCHANGED <<prog, pos, batch, grp>>

Next == GroupOne \/ GroupEnd \/ MergeOne \/ MergeEnd
Spec == Start /\ [][Next]_vars

(***************************************************************************)
(* What has been done and what is left amount to the program               *)
(***************************************************************************)
RECURSIVE RunItems(_, _, _)
RunItems(xs, k, a) == IF k = 0 THEN a ELSE ApplyMat(xs[k].m, xs[k].t, xs[k].c, N, RunItems(xs, k - 1, a))
RECURSIVE RunItemsDM(_, _, _)
RunItemsDM(xs, k, rho) ==
  IF k = 0 THEN rho
  ELSE Noisy(xs[k].ns, Len(xs[k].ns), xs[k].t[1], N,
             Right(xs[k].m, xs[k].t, xs[k].c, N, Left(xs[k].m, xs[k].t, xs[k].c, N, RunItemsDM(xs, k - 1, rho))))
Items(ops) == [k \in DOMAIN ops |-> Item(ops[k])]
Rest == IF pc = "group" THEN Items(grp \o SortBatch(batch) \o SubSeq(prog, pos, Len(prog)))
        ELSE IF pc = "merge" THEN Items(SubSeq(grp, 1, pos)) \o last \o out
        ELSE out
\* a vector without symmetries
V == [d |-> 1, v |-> [k \in 1..P2(N) |-> <<(k * k) - 3 * k, k - 2, 3 - k, 1>>]]
Same ==
  IF Noiseless(prog) THEN AEq(RunItems(Rest, Len(Rest), V), RunVec(prog, Len(prog), <<>>, N, V))
  ELSE AEq(RunItemsDM(Rest, Len(Rest), Outer(V, V)), RunDM(prog, Len(prog), <<>>, N, Outer(V, V)))
\* grouping neither loses nor invents gates; merging leaves no equal neighbours
Permuted == pc # "group" =>
  \A o \in Alphabet : Len(SelectSeq(grp, LAMBDA x : x = o)) = Len(SelectSeq(prog, LAMBDA x : x = o))
Merged == pc = "done" /\ Noiseless(prog) =>
  \A k \in 1..(Len(out) - 1) : out[k].t # out[k + 1].t \/ out[k].c # out[k + 1].c
=============================================================================
