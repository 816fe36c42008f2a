-------------------------------- MODULE FilesTrace --------------------------------
(* After each step: the code, the contents of all the files (compared with the     *)
(* results of runs with data), the files whose bytes have changed, the files which *)
(* were created elsewhere, and whether the computation was started.                *)
EXTENDS Files, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, at, disk, bad, seen, verdict
vars == <<id, at, disk, bad, seen, verdict>>
R == Trace[id]
Init == \E j \in 1..Len(Trace) : id = j /\ at = 0 /\ disk = [f \in Names |-> None] /\ bad = {} /\ seen = "" /\ verdict = ""
Failing(name, holds) == IF holds THEN {} ELSE {name}
Step == /\ at < Len(R.steps) /\ verdict = ""
        /\ at' = at + 1
        /\ LET e == R.steps[at + 1] o == R.obs[at + 1] ok == Succeeds(disk, e)
           IN /\ disk' = After(disk, e)
              /\ seen' = e.op \o (IF ok THEN " succeeds" ELSE " fails")
              /\ bad' = bad
                 \cup Failing("harness: step", e.op # "put" \/ o.code = 0)
                 \cup (IF e.op = "extract" THEN Failing("extraction: code and extracted files", (o.code = 0) = (o.extra # <<>>)) ELSE
                       Failing(IF ok THEN "success is not reported" ELSE "failure is not reported", (o.code = 0) = ok)
                       \cup Failing("created files", ToSet(o.extra) = Shots(disk, e)))
                 \cup (IF e.op = "put" THEN {} ELSE
                       Failing("a file which is not the output of a successful run was changed",
                               \A f \in ToSet(o.touched) : ok /\ e.op \in {"mesher", "solver"} /\ f = Output(e))
                       \cup Failing("content of the output", ~ok \/ e.op \notin {"mesher", "solver"} \/ o.disk[Output(e)] = Result(disk, e)))
                 \cup (IF e.op \in Runs /\ o.watched THEN Failing("computation without valid inputs", Inputs(disk, e) \/ ~o.started) ELSE {})
        /\ UNCHANGED <<id, verdict>>
Judge == /\ at = Len(R.steps) /\ verdict = ""
         /\ verdict' = ToJson([id |-> id, end |-> seen, why |-> "", bad |-> SetToSeq(bad)])
         /\ PrintT("VERDICT " \o verdict') /\ UNCHANGED <<id, at, disk, bad, seen>>
Next == Step \/ Judge
=============================================================================
