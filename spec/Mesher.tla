-------------------------------- MODULE Mesher --------------------------------
(***************************************************************************)
(* The mesher: from a geometry request to a voxel structure.               *)
(*                                                                         *)
(* State machine of the stages of the mesher.  A voxel is a cell <<x,y,z>> *)
(* of a regular grid (0-based); linear indices (x fastest) exist only at   *)
(* the interface.  The stages are                                          *)
(*                                                                         *)
(*   load -> cloud -> reduce -> resample -> rules* -> random -> disjoint   *)
(*        -> graph -> adjacent -> connected -> done                        *)
(*                                                                         *)
(* and every stage can refuse the request (phase "refused").               *)
(*                                                                         *)
(* request (req):                                                          *)
(*   n, d, c          grid size, voxel dimensions, center (decimals)       *)
(*   names, dom       domain names and their declared linear indices       *)
(*   check_cloud, full_cloud, pts                                          *)
(*   use_reduce, use_resample, factor                                      *)
(*   resolve_rules, resolve_random, rules (sequence of keep/resolve lists) *)
(*   adjacent, connected (sequences of [groups, connected])                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Dec

VARIABLES
    req,        \* the request
    phase,      \* stage to be executed next
    n, d, c,    \* current grid
    dom,        \* current domains: name -> set of cells
    pts,        \* current point cloud
    todo,       \* remaining pairs of the rule-based conflict resolution
    comps,      \* connected components (set of sets of cells)
    why         \* reason of the refusal

vars == <<req, phase, n, d, c, dom, pts, todo, comps, why>>

---------------------------------------------------------------------------
(* grids and cells *)

Range0(k)  == 0..(k-1)
NCells(sz) == sz[1]*sz[2]*sz[3]

\* linear index <-> cell (x varies fastest, then y, then z)
Cell(sz, i)  == <<i % sz[1], (i \div sz[1]) % sz[2], i \div (sz[1]*sz[2])>>
Index(sz, p) == p[1] + sz[1]*p[2] + sz[1]*sz[2]*p[3]

InGrid(sz, p) == \A a \in 1..3 : p[a] >= 0 /\ p[a] < sz[a]

\* coordinate of the center of a cell along one axis
Coord(sz, dd, cc, p, a) ==
    DAdd(cc[a], DMul(dd[a], DDiv(DInt(2*p[a] + 1 - sz[a]), "2")))
\* coordinate of the lower face of the grid along one axis
Origin(sz, dd, cc, a) == DSub(cc[a], DDiv(DMul(dd[a], DInt(sz[a])), "2"))

Abs(k) == IF k < 0 THEN -k ELSE k
Touch(p, q) == Abs(p[1]-q[1]) + Abs(p[2]-q[2]) + Abs(p[3]-q[3]) = 1
Neighbours(p) == { <<p[1]+1, p[2], p[3]>>, <<p[1]-1, p[2], p[3]>>,
                   <<p[1], p[2]+1, p[3]>>, <<p[1], p[2]-1, p[3]>>,
                   <<p[1], p[2], p[3]+1>>, <<p[1], p[2], p[3]-1>> }

Cells(dm) == UNION { dm[t] : t \in DOMAIN dm }

---------------------------------------------------------------------------
(* connected components: face-connected classes of a set of cells *)

\* cells reached from a front, without leaving a set of cells
\* (the bound variable forces TLC to evaluate the front once)
RECURSIVE Grow(_, _, _)
Grow(all, reached, front) ==
    IF front = {} THEN reached
    ELSE CHOOSE r \in { Grow(all, reached \union nxt, nxt) :
              nxt \in { ((UNION { Neighbours(p) : p \in front }) \intersect all) \ reached } } : TRUE

\* add a cell: the components it touches are merged
AddCell(p, cs) ==
    LET hit == { k \in cs : k \intersect Neighbours(p) # {} }
    IN  (cs \ hit) \union { {p} \union UNION hit }
CompsOf(all) == FoldSet(AddCell, {}, all)

---------------------------------------------------------------------------
(* validity of the request at each stage *)

\* indices unique and within the grid
IndexOk(r) ==
    \A t \in ToSet(r.names) :
        /\ IsInjective(r.dom[t])
        /\ \A k \in DOMAIN r.dom[t] : r.dom[t][k] >= 0 /\ r.dom[t][k] < NCells(r.n)

\* a point is in conflict with a cell if it is within one voxel size of its
\* center along each axis
PointHits(sz, dd, cc, pt, p) ==
    \A a \in 1..3 : DLe(DAbs(DSub(Coord(sz, dd, cc, p, a), pt[a])), dd[a])
PointValid(sz, dd, cc, dm, pt) ==
    ~ \E p \in Cells(dm) : PointHits(sz, dd, cc, pt, p)

\* the pairs <<keep, resolve>> of the rules, in their order of application
RulePairs(r) ==
    IF ~r.resolve_rules THEN <<>>
    ELSE FlattenSeq([k \in 1..Len(r.rules) |->
           FlattenSeq([i \in 1..Len(r.rules[k].keep) |->
             [j \in 1..Len(r.rules[k].resolve) |-> <<r.rules[k].keep[i], r.rules[k].resolve[j]>>]])])

Disjoint(dm) == \A s, t \in DOMAIN dm : s # t => dm[s] \intersect dm[t] = {}

\* groups of a connection check: merged domains, the empty groups are ignored
GroupCells(dm, chk) ==
    SelectSeq([k \in 1..Len(chk.groups) |-> UNION { dm[t] : t \in ToSet(chk.groups[k]) }],
              LAMBDA g : g # {})
GroupNamesOk(dm, chk) == \A k \in 1..Len(chk.groups) : ToSet(chk.groups[k]) \subseteq DOMAIN dm

\* two groups are adjacent if they share a cell or a face (a group is adjacent to itself)
Adjacent(g, h) == g \intersect h # {} \/ (UNION { Neighbours(p) : p \in g }) \intersect h # {}

AdjacentOk(dm, chk) ==
    LET gs == GroupCells(dm, chk)
        deg(i) == Cardinality({ j \in 1..Len(gs) : Adjacent(gs[i], gs[j]) })
    IN  IF chk.connected
        THEN \E i \in 1..Len(gs) : deg(i) = Len(gs)
        ELSE \A i \in 1..Len(gs) : deg(i) <= 1

ConnectedOk(dm, cs, chk) ==
    LET gs == GroupCells(dm, chk)
        hit(k) == Cardinality({ j \in 1..Len(gs) : gs[j] \intersect k # {} })
    IN  IF chk.connected
        THEN \E k \in cs : hit(k) = Len(gs)
        ELSE \A k \in cs : hit(k) <= 1

---------------------------------------------------------------------------
(* behaviour *)

InitWith(r) ==
    /\ req = r
    /\ phase = "load"
    /\ n = r.n /\ d = r.d /\ c = r.c
    /\ dom = <<>>
    /\ pts = r.pts
    /\ todo = <<>>
    /\ comps = {}
    /\ why = ""

Refuse(reason) ==
    /\ phase' = "refused"
    /\ why' = reason
    /\ UNCHANGED <<req, n, d, c, dom, pts, todo, comps>>

Load ==
    /\ phase = "load"
    /\ IF IndexOk(req)
       THEN /\ dom' = [t \in ToSet(req.names) |-> { Cell(req.n, i) : i \in ToSet(req.dom[t]) }]
            /\ phase' = "cloud"
            /\ UNCHANGED <<req, n, d, c, pts, todo, comps, why>>
       ELSE Refuse("index")

Cloud ==
    /\ phase = "cloud"
    /\ LET good == SelectSeq(pts, LAMBDA pt : PointValid(n, d, c, dom, pt))
       IN  IF req.check_cloud /\ req.full_cloud /\ Len(good) # Len(pts)
           THEN Refuse("cloud")
           ELSE /\ pts' = IF req.check_cloud THEN good ELSE pts
                /\ phase' = "reduce"
                /\ UNCHANGED <<req, n, d, c, dom, todo, comps, why>>

\* crop to the bounding box of the used voxels (the material does not move)
Reduce ==
    /\ phase = "reduce"
    /\ IF ~req.use_reduce
       THEN /\ phase' = "resample"
            /\ UNCHANGED <<req, n, d, c, dom, pts, todo, comps, why>>
       ELSE IF Cells(dom) = {} THEN Refuse("empty")
       ELSE LET lo(a) == Min({ p[a] : p \in Cells(dom) })
                hi(a) == Max({ p[a] : p \in Cells(dom) })
            IN  /\ n' = [a \in 1..3 |-> hi(a) - lo(a) + 1]
                /\ c' = [a \in 1..3 |-> DAdd(c[a], DMul(d[a], DDiv(DInt(lo(a) + hi(a) + 1 - n[a]), "2")))]
                /\ dom' = [t \in DOMAIN dom |->
                             { <<p[1]-lo(1), p[2]-lo(2), p[3]-lo(3)>> : p \in dom[t] }]
                /\ phase' = "resample"
                /\ UNCHANGED <<req, d, pts, todo, comps, why>>

\* split every voxel into factor[1] x factor[2] x factor[3] voxels
SubCells(p, f) == { <<f[1]*p[1]+i, f[2]*p[2]+j, f[3]*p[3]+k>> :
                      i \in Range0(f[1]), j \in Range0(f[2]), k \in Range0(f[3]) }
Resample ==
    /\ phase = "resample"
    /\ IF ~req.use_resample
       THEN UNCHANGED <<n, d, dom>>
       ELSE /\ n' = [a \in 1..3 |-> n[a]*req.factor[a]]
            /\ d' = [a \in 1..3 |-> DDiv(d[a], DInt(req.factor[a]))]
            /\ dom' = [t \in DOMAIN dom |-> UNION { SubCells(p, req.factor) : p \in dom[t] }]
    /\ todo' = RulePairs(req)
    /\ phase' = "rules"
    /\ UNCHANGED <<req, c, pts, comps, why>>

\* apply the next pair of the rules
Rule ==
    /\ phase = "rules"
    /\ todo # <<>>
    /\ LET keep == todo[1][1]
           res  == todo[1][2]
       IN  IF {keep, res} \subseteq DOMAIN dom
           THEN /\ dom' = [dom EXCEPT ![res] = @ \ dom[keep]]
                /\ todo' = Tail(todo)
                /\ UNCHANGED <<req, phase, n, d, c, pts, comps, why>>
           ELSE Refuse("rule name")

RuleEnd ==
    /\ phase = "rules"
    /\ todo = <<>>
    /\ phase' = "random"
    /\ UNCHANGED <<req, n, d, c, dom, pts, todo, comps, why>>

\* random resolution: every cell is given to one of the domains claiming it
Claims(dm, p) == { t \in DOMAIN dm : p \in dm[t] }
OwnerMaps(dm) == { f \in [Cells(dm) -> DOMAIN dm] : \A p \in Cells(dm) : f[p] \in Claims(dm, p) }

RandomSkip ==
    /\ phase = "random"
    /\ ~req.resolve_random
    /\ phase' = "disjoint"
    /\ UNCHANGED <<req, n, d, c, dom, pts, todo, comps, why>>

RandomTo(newdom) ==
    /\ phase = "random"
    /\ req.resolve_random
    /\ dom' = newdom
    /\ phase' = "disjoint"
    /\ UNCHANGED <<req, n, d, c, pts, todo, comps, why>>

\* the set of the resolutions the random stage may produce, as a predicate
RandomOk(dm, nd) ==
    /\ DOMAIN nd = DOMAIN dm
    /\ \A t \in DOMAIN dm : nd[t] \subseteq dm[t]
    /\ Cells(nd) = Cells(dm)
    /\ Disjoint(nd)

RandomAny ==
    /\ phase = "random"
    /\ req.resolve_random
    /\ \E f \in OwnerMaps(dom) :
        RandomTo([t \in DOMAIN dom |-> { p \in Cells(dom) : f[p] = t }])

CheckDisjoint ==
    /\ phase = "disjoint"
    /\ IF Disjoint(dom)
       THEN /\ phase' = "graph"
            /\ UNCHANGED <<req, n, d, c, dom, pts, todo, comps, why>>
       ELSE Refuse("overlap")

Graph ==
    /\ phase = "graph"
    /\ comps' = CompsOf(Cells(dom))
    /\ phase' = "adjacent"
    /\ UNCHANGED <<req, n, d, c, dom, pts, todo, why>>

CheckAdjacent ==
    /\ phase = "adjacent"
    /\ IF \A k \in 1..Len(req.adjacent) :
            GroupNamesOk(dom, req.adjacent[k]) /\ AdjacentOk(dom, req.adjacent[k])
       THEN /\ phase' = "connected"
            /\ UNCHANGED <<req, n, d, c, dom, pts, todo, comps, why>>
       ELSE Refuse("adjacent")

CheckConnected ==
    /\ phase = "connected"
    /\ IF \A k \in 1..Len(req.connected) :
            GroupNamesOk(dom, req.connected[k]) /\ ConnectedOk(dom, comps, req.connected[k])
       THEN /\ phase' = "done"
            /\ UNCHANGED <<req, n, d, c, dom, pts, todo, comps, why>>
       ELSE Refuse("connected")

Final == phase \in {"done", "refused"}

---------------------------------------------------------------------------
(* properties of the specification *)

\* the declared voxels, in the declared grid
DeclaredCells(r, t) == { Cell(r.n, i) : i \in ToSet(r.dom[t]) }
AllDeclared(r) == UNION { DeclaredCells(r, t) : t \in ToSet(r.names) }

\* physical position of a cell of the current grid: the declared cell containing its center
\* (in units of the declared voxels, from the declared origin)
AxisPos(p, a) ==
    DDiv(DSub(Coord(n, d, c, p, a), Origin(req.n, req.d, req.c, a)), req.d[a])
AxisCell(p, a) == CHOOSE k \in 0..(req.n[a]-1) : DLt(DInt(k), AxisPos(p, a)) /\ DLt(AxisPos(p, a), DInt(k+1))
PlaceOf(p) == <<AxisCell(p, 1), AxisCell(p, 2), AxisCell(p, 3)>>

InvShape == phase # "load" => \A t \in DOMAIN dom : \A p \in dom[t] : InGrid(n, p)

\* the material stays where it was declared
InvPlace ==
    phase \in {"resample", "rules", "done"} =>
        \A t \in DOMAIN dom : \A p \in dom[t] : PlaceOf(p) \in DeclaredCells(req, t)

\* nothing is lost: the number of voxels of the union is the declared one times the refinement
InvUnion ==
    phase \in {"random", "disjoint", "graph", "adjacent", "connected", "done"} =>
        Cardinality(Cells(dom)) = Cardinality(AllDeclared(req))
            * (IF req.use_resample THEN req.factor[1]*req.factor[2]*req.factor[3] ELSE 1)

\* each delivered structure has disjoint domains
InvDisjoint == phase \in {"graph", "adjacent", "connected", "done"} => Disjoint(dom)

\* the random resolution always succeeds
InvRandom == (req.resolve_random /\ phase = "refused") => why # "overlap"

\* the enumeration of the random resolutions and the predicate describing them agree
InvRandomPred ==
    (phase = "random" /\ req.resolve_random) =>
        \A f \in OwnerMaps(dom) : RandomOk(dom, [t \in DOMAIN dom |-> { p \in Cells(dom) : f[p] = t }])

\* the components partition the used voxels and are separated by at least one face
InvComps ==
    phase \in {"adjacent", "connected", "done"} =>
        /\ UNION comps = Cells(dom)
        /\ \A k \in comps : k # {} /\ Grow(k, {CHOOSE p \in k : TRUE}, {CHOOSE p \in k : TRUE}) = k
        /\ \A k, m \in comps : k # m =>
              k \intersect m = {} /\ \A p \in k, q \in m : ~Touch(p, q)

\* the cropped box is tight
InvTight ==
    (phase = "resample" /\ req.use_reduce) =>
        \A a \in 1..3 : /\ \E p \in Cells(dom) : p[a] = 0
                        /\ \E p \in Cells(dom) : p[a] = n[a]-1

\* the kept points are a subsequence of the requested points and are all valid
InvPoints ==
    (phase \notin {"load", "cloud", "refused"}) =>
        /\ Len(pts) <= Len(req.pts)
        /\ ToSet(pts) \subseteq ToSet(req.pts)
        /\ (~req.check_cloud => pts = req.pts)
        /\ (req.full_cloud => pts = req.pts)

Inv == InvShape /\ InvPlace /\ InvUnion /\ InvDisjoint /\ InvRandom /\ InvRandomPred
         /\ InvComps /\ InvTight /\ InvPoints
=============================================================================
