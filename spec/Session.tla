------------------------------ MODULE Session -------------------------------
EXTENDS Choose
(***************************************************************************)
(* Histories of calls over shared objects.                                 *)
(*                                                                         *)
(* A session holds circuits, states, dictionaries of parameter values and  *)
(* observables (the store).  A client calls the library with objects of    *)
(* the store, any number of times and in any order; some calls are refused *)
(* (a missing value, a negative number of shots, ...).  Between calls the  *)
(* client may alter objects of the store in place, or replace them.  The   *)
(* library has no variable of its own: the answer to a call is a function  *)
(* of the request and the present store, and no call changes the store.    *)
(*                                                                         *)
(* Several clients may be calling at the same time: a call begins, may be  *)
(* interrupted (step) while others begin or end, and ends.  The client     *)
(* alters objects only when no call is under way.                          *)
(*                                                                         *)
(*   store  [progs, inits, envs, senv, obs, n]                             *)
(*   log    the calls made and the alterations so far, with the answers    *)
(*   vers   how often the store was altered                                *)
(*   pend   the call each client is making, if any                         *)
(***************************************************************************)
VARIABLES store, log, todo, vers, start, pend
svars == <<store, log, todo, vers, start, pend>>

\* "near" asks for an expectation value at angles moved by a millionth; "jit", "traced"
\* and "vmap" ask through compiled, differentiated and vectorised functions
Kinds == {"run", "apply", "merge", "exp_ad", "exp_adjoint", "exp_gpsr", "grad_ad", "grad_adjoint",
          "grad_gpsr", "sample", "shots", "shotgrad", "tensor", "convert", "observe", "density", "near",
          "jit", "traced", "vmap", "sparse", "bookkeeping", "undo",
          "bad_missing", "bad_forgotten", "bad_shots", "bad_mode", "bad_sample", "bad_support", "bad_adjoint"}
Refused == {"bad_missing", "bad_forgotten", "bad_shots", "bad_mode", "bad_sample", "bad_support", "bad_adjoint"}

SPars == {"a", "b"}
Noiseless(ops) == \A k \in DOMAIN ops : ops[k].ns = <<>>
IsPure(st, i) == Len(st.inits[i].v) = P2(st.n)
\* whether the result of program p from state i is a state vector
Vec(st, p, i) == IsPure(st, i) /\ Noiseless(st.progs[p])
\* the final jet of program p from state i with values e
Result(st, p, i, e, ord) ==
  LET RECURSIVE go(_, _, _)
      go(ops, k, j) ==
        IF k > Len(ops) THEN j
        ELSE go(ops, k + 1,
                TLCEval(IF Vec(st, p, i) THEN JetVec(ops[k], st.envs[e], st.n, j, ord)
                        ELSE JetDM(ops[k], st.envs[e], st.n, j, ord)))
      a == IF IsPure(st, i) /\ ~Noiseless(st.progs[p]) THEN Outer(st.inits[i], st.inits[i]) ELSE st.inits[i]
  IN  go(st.progs[p], 1, JetInit(a, SPars, ord))

RArr(r) == <<r.d, r.p, r.q>>
\* what calls about program p, state i and values e are answered with
Entry(st, p, i, e) ==
    LET j == TLCEval(Result(st, p, i, e, 1))
        pure == Vec(st, p, i)
    IN  [final |-> [d |-> j.v.d, v |-> j.v.v],
         e |-> [o \in DOMAIN st.obs |-> RArr(IF pure THEN ExpVec(j, st.obs[o], <<>>, st.senv, st.n)
                                             ELSE ExpDM(j, st.obs[o], <<>>, st.senv, st.n))],
         g |-> [o \in DOMAIN st.obs |-> [q \in SPars |->
                 RArr(IF pure THEN GradVec(j, st.obs[o], <<>>, st.senv, st.n, q)
                      ELSE GradDM(j, st.obs[o], <<>>, st.senv, st.n, q))]]]

Empty == [n |-> 0, progs |-> <<>>, inits |-> <<>>, envs |-> <<>>, senv |-> <<>>, obs |-> <<>>]
SInit == New /\ store = Empty /\ log = <<>> /\ todo = R(conf.calls) /\ vers = 0 /\ start = Empty
         /\ pend = [c \in conf.clients |-> <<>>]

RECURSIVE RandOps(_, _, _)
RandOps(nn, k, last) ==
  IF k = 0 THEN <<>>
  ELSE LET o == TLCEval(RandOp(nn, last)) IN <<o>> \o RandOps(nn, k - 1, <<o>>)

\* a program that differs from another one in a detail of one operation
Twist(ops, nn) ==
  LET k == R(DOMAIN ops)
      o == ops[k]
      c == R(1..5)
  IN  [ops EXCEPT ![k] =
        CASE c = 1 /\ o.c # <<>> -> [o EXCEPT !.t = o.c, !.c = SubSeq(o.t, 1, 1)]
          [] c = 1 /\ o.c = <<>> /\ Len(o.t) = 2 -> [o EXCEPT !.nm = "ISQRTSWAP"]
          [] o.ns # <<>> /\ o.ns[1].ty \in {"BitFlip", "PhaseFlip"} /\ c # 2 ->
               [o EXCEPT !.ns[1].pr = <<IF @ = <<<<3, 25>>>> THEN <<31, 250>> ELSE <<3, 25>>>>]
          [] c = 2 /\ Len(o.t) = 1 -> [o EXCEPT !.ns = IF o.ns = <<>> THEN NoiseSeq(1) ELSE <<>>]
          [] c = 3 /\ o.nm \in ParamNames1 -> [o EXCEPT !.p = IF o.p = "a" THEN "b" ELSE "a"]
          [] c = 4 /\ o.nm \in ParamNames1 -> [o EXCEPT !.nm = IF o.nm = "PHASE" THEN "RZ" ELSE "PHASE"]
          [] OTHER -> [o EXCEPT !.c = <<>>]]
\* the second program shares operations with the first one
Mixed(p, q) == TLCEval(IF Coin(2) THEN q \o p ELSE SubSeq(p, 1, R(0..Len(p))) \o q)

Setup ==
  /\ store.n = 0
  /\ \E nn \in {R(conf.ns)} :
     \E p1 \in {TLCEval(RandOps(nn, R(2..4), <<>>))} :
     \E p2 \in {TLCEval(Mixed(p1, RandOps(nn, R(1..2), <<>>)))} :
     \E p3 \in {TLCEval(Twist(p1, nn))} :
     \E i1 \in {TLCEval(GenericVec(nn))} :
     \E i2 \in {TLCEval(IF Coin(2) THEN GenericDM(nn) ELSE GenericVec(nn))} :
     \E e1 \in {TLCEval([q \in SPars |-> Angle(q)])} :
     \E e2 \in {TLCEval([q \in SPars |-> Angle(q)])} :
     \E o1 \in {TLCEval(HermObs(nn))} : \E o2 \in {TLCEval(HermObs(nn))} :
     \E se \in {TLCEval([q \in conf.sparams |-> Ratio(q)])} :
       store' = [n |-> nn, progs |-> <<p1, p2, p3>>, inits |-> <<i1, i2>>, envs |-> <<e1, e2>>,
                 senv |-> se, obs |-> <<o1, o2>>]
  /\ start' = store'
  /\ UNCHANGED <<log, todo, vers, pend, vars>>

(***************************************************************************)
(* What the client does to its own objects between calls                   *)
(***************************************************************************)
Altered(st, a) ==
  CASE a.act = "value" -> [st EXCEPT !.envs[a.e][a.q] = a.to]
    [] a.act = "scale" -> [st EXCEPT !.senv["s"] = a.to]
    [] a.act = "extend" -> [st EXCEPT !.progs[a.p] = Append(@, a.op)]
    [] a.act = "state" -> [st EXCEPT !.inits[a.i] = a.to]
    [] a.act = "rebuild" -> st
Alteration(st) ==
  LET c == R(1..7)
  IN  CASE c \in {1, 2, 3} -> [act |-> "value", e |-> R(1..2), q |-> R(SPars), to |-> Angle(0)]
        [] c = 4 -> [act |-> "scale", to |-> Ratio(0)]
        [] c = 5 -> [act |-> "extend", p |-> R(1..3), op |-> [RandOp(st.n, <<>>) EXCEPT !.ns = <<>>]]
        [] c = 6 -> [act |-> "state", i |-> 1, to |-> GenericVec(st.n)]
        [] c = 7 -> [act |-> "rebuild", p |-> R(1..3)]
Idle == \A c \in conf.clients : pend[c] = <<>>
Alter ==
  /\ store.n > 0 /\ todo > 0 /\ log # <<>> /\ log[Len(log)].what = "call" /\ Idle /\ Coin(3)
  /\ \E a \in {TLCEval(Alteration(store))} :
       /\ store' = TLCEval(Altered(store, a))
       /\ log' = Append(log, [what |-> "alter", alter |-> a])
  /\ vers' = vers + 1
  /\ UNCHANGED <<todo, start, pend, vars>>

Request(st) ==
  [kind |-> IF Coin(4) THEN R(Refused) ELSE R(Kinds \ Refused),
   p |-> R(1..3), i |-> R(1..2), e |-> R(1..2), o |-> R({<<1>>, <<2>>, <<1, 2>>, <<2, 1>>}), k |-> R(1..3)]
\* often the same request again, in particular after an alteration
Calls == SelectSeq(log, LAMBDA x : x.what = "call")
Again(st) == IF log # <<>> /\ log[Len(log)].what = "alter" /\ Coin(2) THEN Calls[Len(Calls)].req
             ELSE IF Calls # <<>> /\ Coin(3) THEN Calls[R(1..Len(Calls))].req ELSE Request(st)

\* What a request is answered with: exact results, or a refusal.  It depends on
\* the request and the store only.
Answer(st, r) == IF r.kind \in Refused THEN "refused" ELSE "granted"
Exact(st, r) ==
  [e \in DOMAIN st.envs |-> IF r.kind \notin Refused /\ (e = r.e \/ r.kind = "vmap")
                             THEN <<TLCEval(Entry(st, r.p, r.i, e))>> ELSE <<>>]

\* client c makes a request
Begin(c) ==
  /\ store.n > 0 /\ todo > 0 /\ pend[c] = <<>>
  /\ \E r \in {TLCEval(Again(store))} :
       /\ pend' = [pend EXCEPT ![c] = <<[req |-> r, ver |-> vers]>>]
       /\ log' = Append(log, [what |-> "begin", by |-> c, req |-> r])
  /\ todo' = todo - 1
  /\ UNCHANGED <<store, vers, start, vars>>
\* its call gets a little further
Step(c) ==
  /\ pend[c] # <<>> /\ Cardinality(conf.clients) > 1
  /\ log[Len(log)].what \in {"call", "begin", "step"} /\ log[Len(log)].by # c
  /\ log' = Append(log, [what |-> "step", by |-> c])
  /\ UNCHANGED <<store, todo, vers, start, pend, vars>>
\* and is answered
End(c) ==
  /\ pend[c] # <<>>
  /\ LET r == pend[c][1].req
     IN  log' = Append(log, [what |-> "call", by |-> c, req |-> r, answer |-> Answer(store, r), ver |-> pend[c][1].ver,
                             res |-> TLCEval(Exact(store, r))])
  /\ pend' = [pend EXCEPT ![c] = <<>>]
  /\ UNCHANGED <<store, todo, vers, start, vars>>

Close ==
  /\ store.n > 0 /\ todo = 0 /\ Idle /\ todo' = -1
  /\ PrintT("CASE " \o ToJson([n |-> start.n, progs |-> start.progs, inits |-> start.inits,
                               envs |-> start.envs, senv |-> start.senv, obs |-> start.obs,
                               log |-> log]))
  /\ UNCHANGED <<store, log, vers, start, pend, vars>>

SNext == Setup \/ Alter \/ Close \/ \E c \in conf.clients : Begin(c) \/ Step(c) \/ End(c)
SSpec == SInit /\ [][SNext]_<<svars, vars>>

\* calls never change the store
CallsKeepStore == [][Len(log') > Len(log) /\ log'[Len(log')].what # "alter" => store' = store]_svars
\* a call is answered about the objects it was given
NoAlterationMeanwhile == \A c \in conf.clients : pend[c] # <<>> => pend[c][1].ver = vers
\* equal requests about the same store are answered equally, whatever happened between them
Functional ==
  \A x, y \in {k \in DOMAIN log : log[k].what = "call"} :
     log[x].req = log[y].req /\ log[x].ver = log[y].ver => log[x].answer = log[y].answer /\ log[x].res = log[y].res

SessConf == [ns |-> {1, 2}, modes |-> {"vec"},
   names |-> <<"RX", "RY", "RZ", "PHASE", "RX", "RY", "H", "X", "T", "SWAP">>,
   ctl |-> 1, params |-> {"a", "b"}, sparams |-> {"s"}, ms |-> <<1, -1, 0>>, noise |-> 12,
   init |-> "generic", sticky |-> TRUE, calls |-> 9..16, terms |-> 3, clients |-> {1}]
ThreadConf == [SessConf EXCEPT !.calls = 6..10, !.clients = {1, 2, 3}]
=============================================================================
