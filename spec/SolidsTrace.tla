----------------------------- MODULE SolidsTrace -----------------------------
(* Judgement of the structures delivered for solid bodies (M09). *)
EXTENDS Solids, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, verdict
Obs == Trace[id].obs
Init == \E k \in 1..Len(Trace) : id = k /\ verdict = "" /\ InitSolids(Trace[k].req)
Failing(name, holds) == IF holds THEN <<>> ELSE <<name>>

Cell(i) == <<i % grid.n[1], (i \div grid.n[1]) % grid.n[2], i \div (grid.n[1]*grid.n[2])>>
Got(t) == { Cell(i) : i \in ToSet(Obs.dom[t]) }
Size == Obs.n = grid.n
Dim == \A a \in Axis : DClose(Obs.d[a], grid.d[a], "1e-6", "0")
Place == \A a \in Axis : DNear(Obs.c[a], grid.c[a], DMul("1e-5", DAdd(DAbs(grid.c[a]), DMul(grid.d[a], DInt(grid.n[a])))))
Names == DOMAIN Obs.dom = DOMAIN must
Filled == \A t \in DOMAIN must : IsInjective(Obs.dom[t]) /\ must[t] \subseteq Got(t) /\ Got(t) \subseteq may[t]
Outcome ==
    IF phase = "refused" THEN (IF Obs.ok THEN << "accepted, must be refused: " \o why >> ELSE <<>>)
    ELSE IF ~Obs.ok THEN (IF Overlap(may) THEN <<>> ELSE <<"refused a valid request">>)
    ELSE Failing("grid size", Size) \o Failing("voxel dimension", Dim) \o Failing("grid position", Place)
      \o Failing("domain names", Names) \o Failing("domain voxels", Names /\ Size => Filled)
Judge ==
    /\ Final /\ verdict = ""
    /\ verdict' = ToJson([id |-> id, end |-> phase, why |-> why, bad |-> IF Decided THEN Outcome ELSE <<>>])
    /\ PrintT("VERDICT " \o verdict') /\ UNCHANGED <<svars, id>>
Next == (Next1 /\ UNCHANGED <<id, verdict>>) \/ Judge
=============================================================================
