----------------------------- MODULE MesherTrace -----------------------------
(* Validation of recorded runs of the mesher: each record is a request and    *)
(* what the implementation made of it. The behaviour of the specification for *)
(* the request is executed (the random resolution is the observed one, if it  *)
(* is allowed), then the observation is judged clause by clause.              *)
EXTENDS Mesher, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES id, verdict

tvars == <<vars, id, verdict>>

Obs == Trace[id].obs

Init == \E k \in 1..Len(Trace) : id = k /\ verdict = "" /\ InitWith(Trace[k].req)

ObsDom == [t \in DOMAIN Obs.dom |-> { Cell(n, i) : i \in ToSet(Obs.dom[t]) }]

RandomObserved ==
    IF Obs.ok /\ RandomOk(dom, ObsDom) THEN RandomTo(ObsDom)
    ELSE IF Obs.ok THEN phase = "random" /\ req.resolve_random /\ Refuse("random")
    ELSE RandomTo([t \in DOMAIN dom |->
            { p \in dom[t] : t = CHOOSE u \in Claims(dom, p) : TRUE }])

Stage ==
    /\ \/ Load \/ Cloud \/ Reduce \/ Resample \/ Rule \/ RuleEnd \/ RandomSkip
       \/ (phase = "random" /\ req.resolve_random /\ RandomObserved)
       \/ CheckDisjoint \/ Graph \/ CheckAdjacent \/ CheckConnected
    /\ UNCHANGED <<id, verdict>>

Rel == "1e-9"
Scale(a) == DAdd(DMul(req.d[a], DInt(req.n[a])), DAbs(req.c[a]))
Same(x, y) == DClose(x, y, Rel, "0")

SizeClause == Obs.n = n
DimClause  == Len(Obs.d) = 3 /\ \A a \in 1..3 : Same(Obs.d[a], d[a])
PlaceClause == Len(Obs.c) = 3 /\ \A a \in 1..3 : DNear(Obs.c[a], c[a], DMul(Rel, Scale(a)))
SpanClause == Len(Obs.s) = 3 /\ \A a \in 1..3 : Same(Obs.s[a], DMul(d[a], DInt(n[a])))

NamesClause == DOMAIN Obs.dom = DOMAIN dom
DomClause == \A t \in DOMAIN dom :
    /\ IsInjective(Obs.dom[t])
    /\ ToSet(Obs.dom[t]) = { Index(n, p) : p \in dom[t] }

GraphClause ==
    /\ \A k \in 1..Len(Obs.graph) : IsInjective(Obs.graph[k])
    /\ Len(Obs.graph) = Cardinality(comps)
    /\ { ToSet(Obs.graph[k]) : k \in 1..Len(Obs.graph) } = { { Index(n, p) : p \in k } : k \in comps }

PointClause ==
    /\ Len(Obs.pts) = Len(pts)
    /\ \A k \in 1..Len(pts) : Len(Obs.pts[k]) = 3 /\ \A a \in 1..3 : DEq(Obs.pts[k][a], pts[k][a])

Used == Cardinality(Cells(dom))
Vox  == DMul(d[1], DMul(d[2], d[3]))
Span(a) == DMul(d[a], DInt(n[a]))
SummaryClause ==
    /\ Obs.status.n_total = NCells(n)
    /\ Obs.status.n_used = Used
    /\ Obs.status.n_domain = Cardinality(DOMAIN dom)
    /\ Obs.status.n_graph = Cardinality(comps)
    /\ Obs.status.n_cloud = Len(pts)
    /\ Same(Obs.status.A_xy, DMul(Span(1), Span(2)))
    /\ Same(Obs.status.A_yz, DMul(Span(2), Span(3)))
    /\ Same(Obs.status.A_xz, DMul(Span(1), Span(3)))
    /\ Same(Obs.status.V_total, DMul(Vox, DInt(NCells(n))))
    /\ Same(Obs.status.V_used, DMul(Vox, DInt(Used)))
    /\ Same(Obs.status.ratio, DDiv(DInt(Used), DInt(NCells(n))))

Failing(name, holds) == IF holds THEN <<>> ELSE <<name>>

\* the failing clauses ("ok" if none)
Outcome ==
    IF phase = "refused" /\ why = "random" THEN <<"random resolution">>
    ELSE IF phase = "refused" /\ Obs.ok THEN << "accepted, must be refused: " \o why >>
    ELSE IF phase = "refused" THEN <<>>
    ELSE IF ~Obs.ok THEN << "refused a valid request" >>
    ELSE Failing("grid size", SizeClause) \o Failing("voxel dimension", DimClause)
      \o Failing("grid position", PlaceClause) \o Failing("grid span", SpanClause)
      \o Failing("domain names", NamesClause) \o Failing("domain voxels", NamesClause => DomClause)
      \o Failing("connected components", GraphClause) \o Failing("field points", PointClause)
      \o Failing("summary", SummaryClause)

Judge ==
    /\ Final
    /\ verdict = ""
    /\ verdict' = ToJson([id |-> id, end |-> phase, why |-> why, bad |-> Outcome])
    /\ PrintT("VERDICT " \o verdict')
    /\ UNCHANGED <<vars, id>>

Next == Stage \/ Judge
=============================================================================
