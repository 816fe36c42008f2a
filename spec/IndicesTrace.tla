----------------------------- MODULE IndicesTrace -----------------------------
EXTENDS Indices, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, bad, verdict
Obs == Trace[id].obs
Init == \E k \in 1..Len(Trace) : id = k /\ bad = <<>> /\ verdict = "" /\ InitIdx(Trace[k].req)
Failing(name, holds) == IF holds THEN <<>> ELSE <<name>>
\* the observation: first (conversion), second (conversion of the result)
Large == "large" \in DOMAIN req
Big == /\ Large /\ phase = "given"
       /\ LET good == \A k \in 1..Len(val) : InRangeD(req.n, req.kind, val[k])
              lin == req.kind = "linear"
              x == Obs.first.val
          IN  /\ phase' = IF good THEN "back" ELSE "refused"
              /\ bad' = IF ~good THEN Failing("accepted, must be refused", ~Obs.first.ok)
                        ELSE IF ~Obs.first.ok THEN <<"refused a valid request">>
                        ELSE Failing("conversion", Len(x) = Len(val) /\ \A k \in 1..Len(val) :
                                 IF lin THEN SameVoxel(req.n, val[k], x[k]) ELSE SameVoxel(req.n, x[k], val[k]))
                          \o Failing("round trip", Obs.second.ok /\ Obs.second.val = val)
       /\ UNCHANGED <<req, val, id, verdict>>
Step1 == /\ ~Large /\ Forward
         /\ bad' = IF phase' = "refused" THEN Failing("accepted, must be refused", ~Obs.first.ok)
                   ELSE IF ~Obs.first.ok THEN <<"refused a valid request">>
                   ELSE Failing("conversion", Obs.first.val = val')
         /\ UNCHANGED <<id, verdict>>
Step2 == /\ Backward
         /\ bad' = bad \o Failing("round trip", Obs.second.ok /\ Obs.second.val = val')
         /\ UNCHANGED <<id, verdict>>
Judge == /\ phase \in {"back", "refused"} /\ verdict = ""
         /\ verdict' = ToJson([id |-> id, end |-> req.kind \o " " \o phase, why |-> "", bad |-> bad \o Failing("input modified", Obs.kept)])
         /\ PrintT("VERDICT " \o verdict') /\ UNCHANGED <<xvars, id, bad>>
Next == Big \/ Step1 \/ Step2 \/ Judge
=============================================================================
