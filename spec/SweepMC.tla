-------------------------------- MODULE SweepMC --------------------------------
(* All the dependencies between up to N sweeps, with at most one failing sweep. *)
EXTENDS Sweep, Json, IOUtils
VARIABLE sent
Count == IF IOEnv.TIER = "thorough" THEN 5 ELSE 4
Tags == << "a", "b", "c", "d", "e" >>
Names(n) == {"", "unknown"} \cup { Tags[k] : k \in 1..n }
Requests == UNION { { [sweeps |-> [k \in 1..n |-> [tag |-> Tags[k], init |-> f[k]]], fails |-> x] :
                      f \in [1..n -> Names(n)], x \in {{}} \cup (IF n <= 3 THEN { {Tags[k]} : k \in 1..n } ELSE {}) } : n \in 1..Count }
MCInit == \E r \in Requests : InitWith(r) /\ sent = FALSE
Emit == ~sent /\ sent' = TRUE /\ PrintT("REQ " \o ToJson(req)) /\ UNCHANGED vars
Check1 == sent /\ Check /\ UNCHANGED sent
Start1 == sent /\ (\E k \in Sweeps : Start(k)) /\ UNCHANGED sent
Finish1 == sent /\ (\E k \in Sweeps : Finish(k)) /\ UNCHANGED sent
Fail1 == sent /\ (\E k \in Sweeps : Fail(k)) /\ UNCHANGED sent
MCDone == Final /\ UNCHANGED <<vars, sent>>
MCNext == Emit \/ Check1 \/ Start1 \/ Finish1 \/ Fail1 \/ MCDone
Live == WF_<<vars, sent>>(Emit \/ Check1 \/ Start1 \/ Finish1 \/ Fail1)
MCSpec == MCInit /\ [][MCNext]_<<vars, sent>> /\ Live
=============================================================================
