-------------------------------- MODULE Shapes --------------------------------
(* Voxel structure defined by 2D shapes placed on a stack of layers (M08).                                              *)
(*                                                                                                                      *)
(* A region is the content of a domain in a layer: the union of the added pieces without the subtracted pieces. A voxel *)
(* belongs to the domain if and only if its center is within the region of its layer. Centers on (or next to) an        *)
(* outline, and within the approximation of the round parts are in doubt: "must" / "may".                               *)
(*                                                                                                                      *)
(* request: d, cz ("" for centering), lo, hi (<<>> if not declared), slack (tolerance of the construction), names,      *)
(* layers: sequence of [n_layer, tag], shapes: domain -> sequence of [layers, op, type, coord, holes, r]                *)
(* r: half thickness (half diameter, half width, buffer), "" for none                                                   *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Dec

VARIABLES req, phase, regions, grid, must, may, left, why
hvars == <<req, phase, regions, grid, must, may, left, why>>
Axis == 1..3
NoGrid == [n |-> <<0, 0, 0>>, d |-> <<"1", "1", "1">>, c |-> <<"0", "0", "0">>, lo |-> <<"0", "0">>]

InitShapes(r) ==
    /\ req = r /\ phase = "layers" /\ regions = <<>> /\ grid = NoGrid /\ left = <<>> /\ why = ""
    /\ must = [t \in ToSet(r.names) |-> {}] /\ may = [t \in ToSet(r.names) |-> {}]
Refuse(x) == phase' = "refused" /\ why' = x /\ UNCHANGED <<req, regions, grid, must, may, left>>

Layers ==
    /\ phase = "layers"
    /\ IF ~IsInjective([k \in 1..Len(req.layers) |-> req.layers[k].tag]) THEN Refuse("layer names")
       ELSE /\ phase' = "shapes"
            /\ left' = FlattenSeq([j \in 1..Len(req.names) |-> [k \in 1..Len(req.layers) |-> [name |-> req.names[j], layer |-> k]]])
            /\ UNCHANGED <<req, regions, grid, must, may, why>>

---------------------------------------------------------------------------
(* plane geometry *)
Cross(a, b, p) == DSub(DMul(DSub(b[1], a[1]), DSub(p[2], a[2])), DMul(DSub(b[2], a[2]), DSub(p[1], a[1])))
Opposite(x, y) == (DLt(x, "0") /\ DLt("0", y)) \/ (DLt("0", x) /\ DLt(y, "0"))
\* edges of a closed outline, segments of a line
Edges(s) == [k \in 1..Len(s) |-> <<s[k], s[(k % Len(s)) + 1]>>]
Segments(s) == [k \in 1..(Len(s)-1) |-> <<s[k], s[k+1]>>]
\* two segments cross each other
Crosses(e, f) == Opposite(Cross(e[1], e[2], f[1]), Cross(e[1], e[2], f[2])) /\ Opposite(Cross(f[1], f[2], e[1]), Cross(f[1], f[2], e[2]))
SelfCrossing(s) == LET e == Edges(s) IN \E i, j \in 1..Len(e) : i < j /\ Crosses(e[i], e[j])
\* even-odd rule
Inside(s, p) ==
    LET Hit(e) == /\ DLe(e[1][2], p[2]) # DLe(e[2][2], p[2])
                  /\ (DLt("0", Cross(e[1], e[2], p)) <=> DLt(e[1][2], e[2][2]))
        es == Edges(s)
    IN  Cardinality({ k \in 1..Len(es) : Hit(es[k]) }) % 2 = 1
DistPoint(a, p) == DSqrt(DAdd(DMul(DSub(a[1], p[1]), DSub(a[1], p[1])), DMul(DSub(a[2], p[2]), DSub(a[2], p[2]))))
Clamp(t) == DMax("0", DMin("1", t))
DistSegment(e, p) ==
    LET ux == DSub(e[2][1], e[1][1])
        uy == DSub(e[2][2], e[1][2])
        len2 == DAdd(DMul(ux, ux), DMul(uy, uy))
        t == IF DLe(len2, "0") THEN "0"
             ELSE Clamp(DDiv(DAdd(DMul(ux, DSub(p[1], e[1][1])), DMul(uy, DSub(p[2], e[1][2]))), len2))
    IN  DistPoint(<<DAdd(e[1][1], DMul(t, ux)), DAdd(e[1][2], DMul(t, uy))>>, p)
Least(s) == FoldLeft(LAMBDA x, y : DMin(x, y), Head(s), s)
Most(s) == FoldLeft(LAMBDA x, y : DMax(x, y), Head(s), s)

\* distance to the skeleton of a piece (points, line, or outlines), and position within a polygon
Outline(x) == IF x.type = "polygon" THEN Edges(x.coord) \o FlattenSeq([k \in 1..Len(x.holes) |-> Edges(x.holes[k])])
              ELSE IF x.type = "trace" THEN Segments(x.coord)
              ELSE [k \in 1..Len(x.coord) |-> <<x.coord[k], x.coord[k]>>]
Dist(x, p) == LET o == Outline(x) IN Least([k \in 1..Len(o) |-> DistSegment(o[k], p)])
Filled(x, p) == x.type = "polygon" /\ Inside(x.coord, p) /\ \A k \in 1..Len(x.holes) : ~Inside(x.holes[k], p)
Radius(x) == IF x.r = "" THEN "0" ELSE x.r
\* the extent of a round part, hence the grid if it is not declared, is known up to the approximation
Declared == req.lo # <<>> /\ req.hi # <<>>
Largest == Most(<<"0">> \o FlattenSeq([j \in 1..Len(req.names) |-> [k \in 1..Len(req.shapes[req.names[j]]) |-> Radius(req.shapes[req.names[j]][k])]]))
Slack == IF Declared THEN req.slack ELSE DAdd(req.slack, DMul("0.005", Largest))
\* the round parts are approximated by polygons (less than 0.7 percent of the radius)
MustIn(x, p, slk) == \E h \in {Dist(x, p)} : \/ Filled(x, p) /\ (DLt(slk, h) \/ DLt(slk, DMul("0.99", Radius(x))))
                                        \/ DLt(DAdd(h, slk), DMul("0.993", Radius(x)))
MayIn(x, p, slk)  == Filled(x, p) \/ DLe(Dist(x, p), DAdd(Radius(x), slk))
IllFormed(x) == x.type = "polygon" /\ x.r = "" /\ SelfCrossing(x.coord)

---------------------------------------------------------------------------
\* collect the pieces of a region
Compose ==
    /\ phase = "shapes" /\ left # <<>>
    /\ LET h == Head(left)
           all == SelectSeq(req.shapes[h.name], LAMBDA x : req.layers[h.layer].tag \in ToSet(x.layers))
           add == SelectSeq(all, LAMBDA x : x.op = "add")
           sub == SelectSeq(all, LAMBDA x : x.op = "sub")
       IN  IF \E k \in 1..Len(all) : IllFormed(all[k]) THEN Refuse("ill-formed shape")
           ELSE /\ regions' = IF add = <<>> THEN regions ELSE Append(regions, [name |-> h.name, layer |-> h.layer, add |-> add, sub |-> sub])
                /\ left' = Tail(left) /\ UNCHANGED <<req, phase, grid, must, may, why>>

\* extent of the added pieces
Reach(x, a, low) ==
    LET s == [k \in 1..Len(x.coord) |-> x.coord[k][a]]
    IN  IF low THEN DSub(Least(s), Radius(x)) ELSE DAdd(Most(s), Radius(x))
Extent(xs, a, low) == LET s == [k \in 1..Len(xs) |-> Reach(xs[k], a, low)] IN IF low THEN Least(s) ELSE Most(s)
\* the extent of a region is the one of its added pieces if the subtracted pieces stay strictly within
SameExtent(g) == \E slk \in {Slack} : \A k \in 1..Len(g.sub) : \A a \in 1..2 :
    /\ DLt(DAdd(Extent(g.add, a, TRUE), slk), Reach(g.sub[k], a, TRUE))
    /\ DLt(DAdd(Reach(g.sub[k], a, FALSE), slk), Extent(g.add, a, FALSE))
LoOf(gs) == [a \in 1..2 |-> IF req.lo # <<>> THEN req.lo[a] ELSE Least([k \in 1..Len(gs) |-> Extent(gs[k].add, a, TRUE)])]
HiOf(gs) == [a \in 1..2 |-> IF req.hi # <<>> THEN req.hi[a] ELSE Most([k \in 1..Len(gs) |-> Extent(gs[k].add, a, FALSE)])]
Round(q) == LET s == { k \in 0..64 : DLe(DAbs(DSub(q, DInt(k))), "0.5") } IN IF s = {} THEN 0 ELSE CHOOSE k \in s : TRUE
Tie(q) == DLe(IF Declared THEN "0.49" ELSE "0.46", DAbs(DSub(q, DInt(Round(q)))))
Height == FoldLeft(LAMBDA x, y : x + y.n_layer, 0, req.layers)
Below(k) == FoldLeft(LAMBDA x, y : x + y.n_layer, 0, SubSeq(req.layers, 1, k-1))

MakeGrid ==
    /\ phase = "shapes" /\ left = <<>>
    /\ IF regions = <<>> /\ ~Declared THEN Refuse("no shape")
       ELSE \E lo \in {LoOf(regions)} : \E hi \in {HiOf(regions)} :
            \E n \in { [a \in 1..2 |-> Round(DDiv(DSub(hi[a], lo[a]), req.d[a]))] } :
                IF n[1] < 1 \/ n[2] < 1 THEN Refuse("grid")
                ELSE /\ grid' = [n |-> Append(n, Height), lo |-> lo,
                                 d |-> << DDiv(DSub(hi[1], lo[1]), DInt(n[1])), DDiv(DSub(hi[2], lo[2]), DInt(n[2])), req.d[3] >>,
                                 c |-> << DDiv(DAdd(lo[1], hi[1]), "2"), DDiv(DAdd(lo[2], hi[2]), "2"), IF req.cz = "" THEN "0" ELSE req.cz >>]
                     /\ phase' = "fill" /\ left' = regions /\ UNCHANGED <<req, regions, must, may, why>>

Center(x, y) == << DAdd(grid.lo[1], DMul(grid.d[1], DDiv(DInt(2*x+1), "2"))), DAdd(grid.lo[2], DMul(grid.d[2], DDiv(DInt(2*y+1), "2"))) >>
Columns == (0..(grid.n[1]-1)) \X (0..(grid.n[2]-1))
Certain(g, slk) == { q \in Columns : \E p \in {Center(q[1], q[2])} :
                  (\E k \in 1..Len(g.add) : MustIn(g.add[k], p, slk)) /\ (\A k \in 1..Len(g.sub) : ~MayIn(g.sub[k], p, slk)) }
Possible(g, slk) == { q \in Columns : \E p \in {Center(q[1], q[2])} :
                  (\E k \in 1..Len(g.add) : MayIn(g.add[k], p, slk)) /\ (\A k \in 1..Len(g.sub) : ~MustIn(g.sub[k], p, slk)) }
Lift(cols, k) == { <<q[1], q[2], z>> : q \in cols, z \in Below(k)..(Below(k) + req.layers[k].n_layer - 1) }

Fill ==
    /\ phase = "fill" /\ left # <<>>
    /\ LET g == Head(left)
       IN  \E slk \in {Slack} : \E s \in {Certain(g, slk)} : \E u \in {Possible(g, slk)} :
            /\ must' = [must EXCEPT ![g.name] = @ \cup Lift(s, g.layer)]
            /\ may'  = [may EXCEPT ![g.name] = @ \cup Lift(u, g.layer)]
            /\ left' = Tail(left) /\ UNCHANGED <<req, phase, regions, grid, why>>

Overlap(f) == \E s, t \in DOMAIN f : s # t /\ f[s] \intersect f[t] # {}
Finish ==
    /\ phase = "fill" /\ left = <<>>
    /\ IF Overlap(must) THEN Refuse("overlap")
       ELSE phase' = "done" /\ UNCHANGED <<req, regions, grid, must, may, left, why>>

Next1 == Layers \/ Compose \/ MakeGrid \/ Fill \/ Finish
Final == phase \in {"done", "refused"}
\* the request is decided by the specification: the extent is known, no rounding tie in the number of voxels
Decided == (phase = "refused" /\ why \in {"layer names", "ill-formed shape"}) \/
    (/\ (regions # <<>> \/ Declared)
     /\ (Declared \/ \A k \in 1..Len(regions) : SameExtent(regions[k]))
     /\ regions # <<>>
     /\ LET lo == LoOf(regions) hi == HiOf(regions) IN \A a \in 1..2 : ~Tie(DDiv(DSub(hi[a], lo[a]), req.d[a])))

ShapeInv ==
    /\ \A t \in DOMAIN must : must[t] \subseteq may[t]
    /\ phase \in {"fill", "done"} => \A t \in DOMAIN may : \A p \in may[t] : \A a \in Axis : p[a] \in 0..(grid.n[a]-1)
    /\ phase = "done" => ~Overlap(must)
    \* a layer without a piece of the domain stays empty
    /\ phase = "done" => \A t \in DOMAIN may : \A k \in 1..Len(req.layers) :
          (\A j \in 1..Len(req.shapes[t]) : req.layers[k].tag \notin ToSet(req.shapes[t][j].layers)) =>
              \A p \in may[t] : p[3] < Below(k) \/ p[3] >= Below(k) + req.layers[k].n_layer
=============================================================================
