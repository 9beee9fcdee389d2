---------------------------- MODULE GenRequests -----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
(***************************************************************************)
(* Which requests are answered and which are refused, and how.             *)
(* Every request of the table is asked; the reasons to refuse it are       *)
(* collected, each with the kind of error it is reported by.  A request    *)
(* with several reasons may be refused for any of them.                    *)
(***************************************************************************)
VARIABLES req, verdict

ShardNo == atoi(IOEnv.SHARD)
NShards == atoi(IOEnv.NSHARDS)

Modes == {"ad", "adjoint", "gpsr", "bogus"}
\* "strayed": the value is given, but when values are separated among those of the other kind
Missing == {"none", "circuit", "observable", "strayed circuit", "strayed observable"}
Lacking(r) == r.missing \in {"circuit", "observable"} \/ (r.missing # "none" /\ r.split)
Expectations == [call : {"expectation"}, mode : Modes, shots : {-7, -1, 0, 1, 50}, dm : BOOLEAN,
                 noise : BOOLEAN, missing : Missing, split : BOOLEAN, nobs : {1, 2}]
Samples == [call : {"sample"}, shots : {-3, 0, 1, 20}, dm : BOOLEAN, noise : BOOLEAN,
            missing : {"none", "circuit"}]
Objects == {"gate", "controlled", "rotation", "seq", "circuit", "add", "scale", "observable"}
Tensors == [call : {"tensor"}, object : Objects, support : {"none", "equal", "larger", "smaller", "disjoint"},
            missing : {"none", "circuit"}, sparse : BOOLEAN]
Sparses == [call : {"sparse"}, noise : BOOLEAN, form : {"gate", "list", "circuit"}, controlled : BOOLEAN]
Convs == [call : {"convert"}, to : {"sparse", "dense"},
          object : {"array", "bcoo", "gate", "rotation", "seq", "circuit", "add", "scale", "observable",
                    "str", "dict", "none", "number"}]
Runs == [call : {"run"}, dm : BOOLEAN, noise : BOOLEAN, missing : {"none", "circuit"},
         form : {"gate", "list", "circuit", "call"}]
Requests == Expectations \cup Samples \cup Tensors \cup Sparses \cup Convs \cup Runs

Reason(c, e) == IF c THEN {e} ELSE {}
Reasons(r) ==
  CASE r.call = "expectation" ->
         Reason(r.mode = "bogus", "ValueError")
         \cup Reason(r.mode \in {"ad", "gpsr"} /\ r.shots < 0, "ValueError")
         \cup Reason(r.mode = "adjoint" /\ r.dm, "TypeError")
         \cup Reason(r.mode = "adjoint" /\ r.noise, "any")
         \cup Reason(Lacking(r), "KeyError")
    [] r.call = "sample" ->
         Reason(r.shots < 1, "ValueError") \cup Reason(r.missing # "none", "KeyError")
    [] r.call = "tensor" ->
         Reason(r.support \in {"smaller", "disjoint"}, "ValueError")
         \cup Reason(r.missing # "none" /\ r.object \in {"rotation", "seq", "circuit"}, "KeyError")
    [] r.call = "sparse" -> Reason(r.noise, "NotImplementedError")
    [] r.call = "convert" ->
         Reason(r.object \in {"str", "dict", "none", "number"}, "NotImplementedError")
         \cup Reason(r.to = "sparse" /\ r.object = "bcoo", "NotImplementedError")
         \cup Reason(r.to = "dense" /\ r.object = "array", "NotImplementedError")
    [] r.call = "run" -> Reason(r.missing # "none", "KeyError")

B(x) == IF x THEN 1 ELSE 0
Key(r) ==
  CASE r.call = "expectation" -> (r.shots + 7) + B(r.dm) + 2 * B(r.noise) + 3 * B(r.split) + r.nobs
                                   + (IF r.mode = "ad" THEN 0 ELSE IF r.mode = "gpsr" THEN 1 ELSE 3)
    [] r.call = "sample" -> r.shots + 3 + B(r.dm) + B(r.noise)
    [] r.call = "tensor" -> Len(r.object) + Len(r.support) + 3 * B(r.sparse)
    [] r.call = "sparse" -> Len(r.form) + B(r.noise)
    [] r.call = "convert" -> Len(r.object)
    [] r.call = "run" -> Len(r.form) + B(r.dm) + 2 * B(r.noise)

Init == req \in {r \in Requests : Key(r) % NShards = ShardNo} /\ verdict = {"open"}
Decide ==
  /\ verdict = {"open"} /\ UNCHANGED req
  /\ verdict' = Reasons(req)
  /\ PrintT("CASE " \o ToJson([req |-> req, refuse |-> Reasons(req)]))
Spec == Init /\ [][Decide]_<<req, verdict>>

\* what the statement promises: nothing but the listed reasons leads to a refusal
Answered ==
  (verdict = {} /\ req.call = "expectation") =>
     /\ req.mode \in {"ad", "gpsr", "adjoint"} /\ (req.dm \/ req.noise => req.mode # "adjoint")
     /\ (req.shots >= 0 \/ req.mode = "adjoint") /\ ~Lacking(req)
=============================================================================
