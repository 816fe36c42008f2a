-------------------------------- MODULE RunsTrace --------------------------------
(* After each step of a history, all the objects and all the results are looked   *)
(* at: each is compared with the contents of the documents, and with the results  *)
(* of runs made alone in a new process.                                           *)
EXTENDS Runs, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, at, obj, made, bad, verdict
vars == <<id, at, obj, made, bad, verdict>>
R == Trace[id]
Init == \E j \in 1..Len(Trace) : id = j /\ at = 0 /\ obj = Trace[j].start /\ made = <<>> /\ bad = {} /\ verdict = ""
Failing(name, holds) == IF holds THEN {} ELSE {name}
Names(m) == [k \in 1..Len(m) |-> Name(m[k])]
Old(m, k) == k <= Len(m)
Step == /\ at < Len(R.hist) /\ at < Len(R.obs) /\ verdict = ""
        /\ at' = at + 1
        /\ LET e == R.hist[at + 1] o == R.obs[at + 1]
           IN /\ Assert(Can(e, obj, made), <<"impossible step", id, at>>)
              /\ obj' = Objects(e, obj) /\ made' = Results(e, obj, made)
              /\ LET m == made' n == Names(m)
                     same == Len(o.made) = Len(n)
                 IN bad' = bad
                    \cup Failing("run refused or accepted depending on the history", o.ok = ~Fails(e, obj, made))
                    \cup Failing("inputs are left untouched", o.objects = obj')
                    \cup (IF ~same THEN {} ELSE
                          Failing("earlier results are left untouched", \A k \in 1..Len(made) : o.made[k] = n[k])
                          \cup Failing("result depends on the history", Len(m) = Len(made) \/ o.made[Len(m)] = n[Len(m)]))
        /\ UNCHANGED <<id, verdict>>
Judge == /\ at = Len(R.obs) /\ verdict = ""
         /\ verdict' = ToJson([id |-> id, end |-> IF bad = {} THEN "agrees" ELSE "differs", why |-> "",
                               bad |-> SetToSeq(bad \cup Failing("history ended early", Len(R.obs) = Len(R.hist) \/ bad # {}))])
         /\ PrintT("VERDICT " \o verdict') /\ UNCHANGED <<id, at, obj, made, bad>>
Next == Step \/ Judge
=============================================================================
