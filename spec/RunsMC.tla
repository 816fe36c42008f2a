-------------------------------- MODULE RunsMC --------------------------------
EXTENDS Runs, TLC, Json, IOUtils
Geo == {"g1", "g2", "gx"}
Prob == {"p1", "p2", "px"}
Opts == {"t1", "t2", "t3", "t4", "t5", "t6", "t7", "tlib", "tx"}
VARIABLES obj, made, when, last
vars == <<obj, made, when, last>>
E(op, o, to, h) == [op |-> op, obj |-> o, to |-> to, h |-> h]

(* all histories of a small caller: invariants *)
Names == [ga |-> {"g1", "g2", "gx"}, pa |-> {"p1", "px"}, ta |-> {"t1", "tx"}]
Events == { E("edit", n, c, 0) : n \in {"ga"}, c \in Names.ga } \cup { E("edit", "pa", c, 0) : c \in Names.pa } \cup { E("edit", "ta", c, 0) : c \in Names.ta }
     \cup { E("mesh", "ga", "", 0) } \cup { E("solve", "pa", "ta", h) : h \in 1..3 } \cup { E(o, "", "", h) : o \in {"plot", "spoil"}, h \in 1..3 }
Init == obj = [ga |-> "g1", pa |-> "p1", ta |-> "t1"] /\ made = <<>> /\ when = <<>> /\ last = E("", "", "", 0)
Next == \E e \in Events :
    /\ Can(e, obj, made) /\ Len(Results(e, obj, made)) <= 3
    /\ obj' = Objects(e, obj) /\ made' = Results(e, obj, made) /\ last' = e
    /\ when' = IF Len(made') > Len(made) THEN Append(when, IF e.op = "mesh" THEN <<obj["ga"]>>
                    ELSE IF e.op = "solve" THEN <<made[e.h].g, obj["pa"], obj["ta"]>> ELSE when[e.h]) ELSE when
\* each result is determined by what was given to the run which made it
RunsInv == \A k \in 1..Len(made) :
    \/ made[k].kind = "spoiled"
    \/ made[k].kind \in {"V", "WV"} /\ made[k].g = when[k][1] /\ ~MeshFails(when[k][1])
    \/ made[k].kind \in {"S", "WS"} /\ <<made[k].g, made[k].p, made[k].t>> = when[k] /\ ~SolveFails(when[k][1], when[k][2], when[k][3])
\* a step changes its own target only
RunsStep == [][ /\ \A k \in 1..Len(made) : made'[k] = made[k] \/ (last'.op = "spoil" /\ last'.h = k)
                /\ \A n \in DOMAIN obj : obj'[n] = obj[n] \/ (last'.op = "edit" /\ last'.obj = n) ]_vars

(* family: ordered pairs of runs, the objects are edited in place between *)
PairInit == /\ \E g \in {"g1", "g2"}, p \in Prob, t \in Opts : obj = [ga |-> g, pa |-> p, ta |-> t]
            /\ made = <<>> /\ when = <<>> /\ last = E("", "", "", 0)
Pair(a, b, spoil) ==
    LET first == <<E("mesh", "ga", "", 0), E("solve", "pa", "ta", 1)>>
        made1 == IF SolveFails(a.ga, a.pa, a.ta) THEN 1 ELSE 2
        mid == (IF spoil THEN [k \in 1..made1 |-> E("spoil", "", "", k)] ELSE <<>>)
            \o <<E("edit", "ga", b.ga, 0), E("edit", "pa", b.pa, 0), E("edit", "ta", b.ta, 0)>>
        v == made1 + 1
        second == <<E("mesh", "ga", "", 0), E("solve", "pa", "ta", v), E("plot", "", "", v)>>
                  \o (IF SolveFails(b.ga, b.pa, b.ta) THEN <<>> ELSE <<E("plot", "", "", v + 1)>>)
    IN first \o mid \o second
PairNext == /\ when = <<>> /\ UNCHANGED <<obj, made, last>> /\ when' = <<"done">>
            /\ \A g \in {"g1", "g2"}, p \in Prob, t \in Opts, s \in BOOLEAN :
                   PrintT("REQ " \o ToJson([start |-> obj, hist |-> Pair(obj, [ga |-> g, pa |-> p, ta |-> t], s)]))
=============================================================================
