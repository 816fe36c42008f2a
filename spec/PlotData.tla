-------------------------------- MODULE PlotData --------------------------------
(* Content of the plots (W04): which voxels and points are drawn, where, and with *)
(* which value.                                                                   *)
(* structure: n, d, c, pts, dom (sequence of voxel lists), comp (components),     *)
(*   vc, vm, srcc, srcv (voxels with a material, and with a source)               *)
(* plot: layout, var, turn (phase p/q turns), scale, filter, clamp (<<>> or       *)
(*   limits), thr and arrow (arrows), colors                                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Dec

Set(s) == { s[k] : k \in 1..Len(s) }
VoxPos(r, i) == LET p == <<i % r.n[1], (i \div r.n[1]) % r.n[2], i \div (r.n[1]*r.n[2])>>
               IN  [a \in 1..3 |-> DAdd(r.c[a], DMul(r.d[a], DSub(DAdd(DInt(p[a]), "0.5"), DDiv(DInt(r.n[a]), "2"))))]
Small(r) == DMul("1e-6", DMin(r.d[1], DMin(r.d[2], r.d[3])))
SamePlace(r, x, y) == \A a \in 1..3 : DNear(x[a], y[a], Small(r))
\* arrows are stored with single precision
ClosePlace(r, x, y) == \A a \in 1..3 : DNear(x[a], y[a], DAdd(DMul("1e3", Small(r)), DMul("1e-6", DAbs(y[a]))))
UsedView(r) == UNION { Set(r.dom[k]) : k \in 1..Len(r.dom) }
UsedSol(r) == Set(r.vc) \cup Set(r.vm)

\* a drawn object shows each of the given voxels once, at its place, with the size of a voxel
ShowsVoxels(r, o, want) ==
    /\ o.where = "cell" /\ Len(o.vox) = Cardinality(want) /\ Set(o.vox) = want
    /\ \A k \in 1..Len(o.vox) : SamePlace(r, o.pos[k], VoxPos(r, o.vox[k])) /\ SamePlace(r, o.size[k], r.d)
ShowsPoints(r, o, want) ==
    /\ o.where = "point" /\ Len(o.pt) = Cardinality(want) /\ Set(o.pt) = want
    /\ \A k \in 1..Len(o.pt) : SamePlace(r, o.pos[k], r.pts[o.pt[k]])

\* domains and components: the same code if and only if the same part
PartOf(parts, i) == CHOOSE k \in 1..Len(parts) : i \in Set(parts[k])
Codes(o, parts) == \A j, k \in 1..Len(o.vox) :
    DEq(o.val[j], o.val[k]) <=> PartOf(parts, o.vox[j]) = PartOf(parts, o.vox[k])

\* material and source of a voxel: position of its color
MatCode(r, i) == IF i \in Set(r.srcv) THEN 5 ELSE IF i \in Set(r.srcc) THEN 4
                 ELSE IF i \in Set(r.vc) /\ i \in Set(r.vm) THEN 3 ELSE IF i \in Set(r.vm) THEN 2 ELSE 1

\* fields
Rot(x, t) == DSub(DMul(x[1], DTurnCos(t[1], t[2])), DMul(x[2], DTurnSin(t[1], t[2])))
Norm3(v) == DSqrt(DSum([a \in 1..3 |-> DMul(v[a], v[a])]))
CNorm(f, x) == IF f.vector THEN DSqrt(DSum([a \in 1..3 |-> CAbs2(x[a])])) ELSE CAbs(x)
VecAt(p, x) == [a \in 1..3 |-> Rot(x[a], p.turn)]
Raw(p, f, x) == DMul(p.scale, IF p.layout \in {"norm_voxel", "norm_point"} THEN CNorm(f, x)
                              ELSE IF p.layout \in {"phasor_voxel", "phasor_point"} THEN Rot(x, p.turn) ELSE Norm3(VecAt(p, x)))
\* values of the field at the voxels (or points) of the field, those in the limits are shown
Where(r, f) == IF f.cat \in {"scalar_electric", "vector_electric"} THEN r.vc
               ELSE IF f.cat \in {"scalar_magnetic", "vector_magnetic"} THEN r.vm ELSE [k \in 1..Len(r.pts) |-> k]
InLim(p, v) == p.filter = <<>> \/ (DLe(p.filter[1], v) /\ DLe(v, p.filter[2]))
Clamped(p, v) == IF p.clamp = <<>> THEN v ELSE DMin(DMax(v, p.clamp[1]), p.clamp[2])
IsArrow(p) == p.layout \in {"arrow_voxel", "arrow_point"}
Raws(p, f) == [k \in 1..Len(f.val) |-> Raw(p, f, f.val[k])]
ShownIdx(p, f, raws) == { k \in 1..Len(f.val) : /\ InLim(p, raws[k])
                                                /\ IsArrow(p) => DLt(DMul(p.thr, DMaxAbs(raws)), raws[k]) }
Tol(p, f) == DAdd(DMul("1e-9", DMul(p.scale, DMaxAbs([k \in 1..Len(f.val) |-> CNorm(f, f.val[k])]))), "1e-300")
\* the number k of the field that belongs to the drawn item j
NumOf(w, keys, j) == CHOOSE k \in 1..Len(w) : w[k] = keys[j]
ArrowLen(r, p) == DMul(DMin(r.d[1], DMin(r.d[2], r.d[3])), p.arrow)
ArrowOk(r, p, vec, x) ==
    LET v == VecAt(p, x) s == DDiv(ArrowLen(r, p), Norm3(v))
    IN  \A a \in 1..3 : DNear(vec[a], DMul(s, v[a]), DMul("1e-4", ArrowLen(r, p)))
=============================================================================
