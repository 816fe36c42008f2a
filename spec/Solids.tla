-------------------------------- MODULE Solids --------------------------------
(* Voxel structure defined by solid bodies (M09). The bodies are loaded (scaled, then shifted), the grid is derived   *)
(* from the bounds, then the bodies fill the voxels they reach: a voxel belongs to a domain if and only if one of its *)
(* corners is enclosed by a body of this domain.                                                                      *)
(*                                                                                                                    *)
(* A body is a union of convex parts (half spaces <<a, b, c, e>>: a x + b y + c z <= e, in the coordinates of the     *)
(* file). Corners on (or next to) a surface are in doubt: "must" is what has to be filled, "may" what can be filled.  *)
(*                                                                                                                    *)
(* request: d, lo, hi (<<>> if not declared), names, bodies: sequence of [name, file, scale, offset, parts, box]      *)
(* file: "good", or a defect ("missing", "garbage", "open")                                                           *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Dec

VARIABLES req, phase, grid, must, may, left, why
svars == <<req, phase, grid, must, may, left, why>>
Axis == 1..3
Eps == "1e-5"
NoGrid == [n |-> <<0, 0, 0>>, d |-> <<"1", "1", "1">>, c |-> <<"0", "0", "0">>, lo |-> <<"0", "0", "0">>]

InitSolids(r) ==
    /\ req = r /\ phase = "load" /\ left = r.bodies /\ grid = NoGrid /\ why = ""
    /\ must = [t \in ToSet(r.names) |-> {}] /\ may = [t \in ToSet(r.names) |-> {}]
Refuse(x) == phase' = "refused" /\ why' = x /\ UNCHANGED <<req, grid, must, may, left>>

Load ==
    /\ phase = "load" /\ left # <<>>
    /\ IF Head(left).file \in {"missing", "garbage"} THEN Refuse("file")
       ELSE left' = Tail(left) /\ UNCHANGED <<req, phase, grid, must, may, why>>

DMinOf(s) == FoldLeft(LAMBDA x, y : DMin(x, y), Head(s), s)
DMaxOf(s) == FoldLeft(LAMBDA x, y : DMax(x, y), Head(s), s)
Moved(b, p, a) == DAdd(DMul(b.scale, p[a]), b.offset[a])
Lo == IF req.lo # <<>> THEN req.lo ELSE [a \in Axis |-> DMinOf([k \in 1..Len(req.bodies) |-> Moved(req.bodies[k], req.bodies[k].box[1], a)])]
Hi == IF req.hi # <<>> THEN req.hi ELSE [a \in Axis |-> DMaxOf([k \in 1..Len(req.bodies) |-> Moved(req.bodies[k], req.bodies[k].box[2], a)])]
\* nearest integer (0 if there is none in the range)
Round(q) == LET s == { k \in 0..64 : DLe(DAbs(DSub(q, DInt(k))), "0.5") } IN IF s = {} THEN 0 ELSE CHOOSE k \in s : TRUE
Tie(q) == DLe("0.49", DAbs(DSub(q, DInt(Round(q)))))
Quot(lo, hi, a) == DDiv(DSub(hi[a], lo[a]), req.d[a])

MakeGrid ==
    /\ phase = "load" /\ left = <<>>
    /\ \E lo \in {Lo} : \E hi \in {Hi} : \E n \in { [a \in Axis |-> Round(Quot(lo, hi, a))] } :
        IF \E a \in Axis : n[a] < 1 THEN Refuse("grid")
        ELSE /\ grid' = [n |-> n, lo |-> lo, d |-> [a \in Axis |-> DDiv(DSub(hi[a], lo[a]), DInt(n[a]))],
                         c |-> [a \in Axis |-> DDiv(DAdd(lo[a], hi[a]), "2")]]
             /\ phase' = "fill" /\ left' = req.bodies /\ UNCHANGED <<req, must, may, why>>

\* corner k of the grid in the coordinates of the file
At(b, k) == [a \in Axis |-> DDiv(DSub(DAdd(grid.lo[a], DMul(DInt(k[a]), grid.d[a])), b.offset[a]), b.scale)]
Within(part, p, gap) == \A j \in 1..Len(part) :
    DLe(DSub(DSum(<<DMul(part[j][1], p[1]), DMul(part[j][2], p[2]), DMul(part[j][3], p[3])>>), part[j][4]),
        DMul(gap, DSum(<<DAbs(part[j][1]), DAbs(part[j][2]), DAbs(part[j][3]), DAbs(part[j][4])>>)))
Corners == (0..grid.n[1]) \X (0..grid.n[2]) \X (0..grid.n[3])
Enclosed(b, gap) == { k \in Corners : \E p \in {At(b, k)} : \E j \in 1..Len(b.parts) : Within(b.parts[j], p, gap) }
Around(k) == { <<x, y, z>> \in {k[1]-1, k[1]} \X {k[2]-1, k[2]} \X {k[3]-1, k[3]} :
                 x \in 0..(grid.n[1]-1) /\ y \in 0..(grid.n[2]-1) /\ z \in 0..(grid.n[3]-1) }

Fill ==
    /\ phase = "fill" /\ left # <<>>
    /\ LET b == Head(left)
       IN  IF b.file # "good" THEN Refuse("body not closed")
           ELSE /\ must' = [must EXCEPT ![b.name] = @ \cup UNION { Around(k) : k \in Enclosed(b, DNeg(Eps)) }]
                /\ may'  = [may EXCEPT ![b.name] = @ \cup UNION { Around(k) : k \in Enclosed(b, Eps) }]
                /\ left' = Tail(left) /\ UNCHANGED <<req, phase, grid, why>>

Overlap(f) == \E s, t \in DOMAIN f : s # t /\ f[s] \intersect f[t] # {}
Finish ==
    /\ phase = "fill" /\ left = <<>>
    /\ IF Overlap(must) THEN Refuse("overlap")
       ELSE phase' = "done" /\ UNCHANGED <<req, grid, must, may, left, why>>

Next1 == Load \/ MakeGrid \/ Fill \/ Finish
Final == phase \in {"done", "refused"}
\* the request is decided by the specification (no rounding tie in the number of voxels)
Decided == \A a \in Axis : ~Tie(Quot(Lo, Hi, a))

SolidInv ==
    /\ \A t \in DOMAIN must : must[t] \subseteq may[t]
    /\ phase \in {"fill", "done"} => \A t \in DOMAIN may : \A p \in may[t] : \A a \in Axis : p[a] \in 0..(grid.n[a]-1)
    /\ phase = "done" => ~Overlap(must)
    /\ phase \in {"fill", "done"} => \A a \in Axis :
           /\ DClose(DMul(grid.d[a], DInt(grid.n[a])), DSub(Hi[a], Lo[a]), "1e-12", "0")
           /\ DClose(DSub(grid.c[a], DDiv(DMul(grid.d[a], DInt(grid.n[a])), "2")), Lo[a], "1e-12", "1e-9")
=============================================================================
