----------------------------- MODULE ShapesTrace -----------------------------
(* Judgement of the structures delivered for shapes (M08). *)
EXTENDS Shapes, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, verdict
Obs == Trace[id].obs
Init == \E k \in 1..Len(Trace) : id = k /\ verdict = "" /\ InitShapes(Trace[k].req)
Failing(name, holds) == IF holds THEN <<>> ELSE <<name>>

Cell(i) == <<i % grid.n[1], (i \div grid.n[1]) % grid.n[2], i \div (grid.n[1]*grid.n[2])>>
Got(t) == { Cell(i) : i \in ToSet(Obs.dom[t]) }
Size == Obs.n = grid.n
Rel == DMul("4", Slack)
Dim == \A a \in Axis : DNear(Obs.d[a], grid.d[a], DAdd(Rel, DMul("1e-9", grid.d[a])))
Place == \A a \in Axis : DNear(Obs.c[a], grid.c[a], DAdd(Rel, DMul("1e-9", DAdd(DAbs(grid.c[a]), DMul(grid.d[a], DInt(grid.n[a]))))))
Names == DOMAIN Obs.dom = DOMAIN must
Voxels == \A t \in DOMAIN must : IsInjective(Obs.dom[t]) /\ must[t] \subseteq Got(t) /\ Got(t) \subseteq may[t]
Outcome ==
    IF phase = "refused" THEN (IF Obs.ok THEN << "accepted, must be refused: " \o why >> ELSE <<>>)
    ELSE IF ~Obs.ok THEN (IF Overlap(may) THEN <<>> ELSE <<"refused a valid request">>)
    ELSE Failing("grid size", Size) \o Failing("voxel dimension", Dim) \o Failing("grid position", Place)
      \o Failing("domain names", Names) \o Failing("domain voxels", Names /\ Size => Voxels)
Judge ==
    /\ Final /\ verdict = ""
    /\ verdict' = ToJson([id |-> id, end |-> IF Decided THEN phase ELSE "undecided", why |-> why, bad |-> IF Decided THEN Outcome ELSE <<>>])
    /\ PrintT("VERDICT " \o verdict') /\ UNCHANGED <<hvars, id>>
Next == (Next1 /\ UNCHANGED <<id, verdict>>) \/ Judge
=============================================================================
