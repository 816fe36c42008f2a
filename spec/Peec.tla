--------------------------------- MODULE Peec ---------------------------------
(***************************************************************************)
(* The solver: from a voxel structure and a problem to a solution.         *)
(*                                                                         *)
(* Stages of a run (each of them can refuse the problem):                  *)
(*                                                                         *)
(*   names -> voxels -> place -> values -> network -> integrals -> done    *)
(*                                                                         *)
(*   names      every material, source and parameter set is defined        *)
(*   voxels     materials and sources become sequences of voxels           *)
(*   place      electric voxels exist and contain the sources, and every   *)
(*              connected component with electric voxels has a source      *)
(*   values     per-voxel values have the length of the voxel sequence     *)
(*   network    faces, resistances and sources of the electric network     *)
(*              and of the magnetic network                                *)
(*   integrals  potential integrals of the bricks                          *)
(*                                                                         *)
(* What a solution of the network is (Kirchhoff's laws, inductances,       *)
(* magnetic charges, coupling, powers, field) is defined in the second     *)
(* part, as relations between a network and the fields of a solution.      *)
(*                                                                         *)
(* A voxel is a linear index (x fastest).  A face <<a, i>> separates the   *)
(* voxel i from its successor along the axis a.  A flow is positive from i *)
(* to the successor.                                                       *)
(*                                                                         *)
(* problem (req): n, d, c, dom (name -> sequence of voxels),               *)
(*   mats, srcs (sequences of [tag, type, orient, var, domains, val]),     *)
(*   freq, pts, field ("face" or "voxel")                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC, Dec, Green

VARIABLES
    req,     \* the problem
    phase,   \* stage to be executed next
    why,     \* reason of the refusal
    mvox,    \* voxels of each material (sequence of sequences)
    svox,    \* voxels of each source (sequence of sequences)
    net,     \* the network
    tab      \* the potential integrals

vars == <<req, phase, why, mvox, svox, net, tab>>

MU0 == "1.25663706e-6"

---------------------------------------------------------------------------
(* grid *)

N(a) == req.n[a]
Dim(a) == req.d[a]
Axes == 1..3
Stride(a) == IF a = 1 THEN 1 ELSE IF a = 2 THEN N(1) ELSE N(1)*N(2)
Pos(a, i) == (i \div Stride(a)) % N(a)
CellOf(i) == <<Pos(1, i), Pos(2, i), Pos(3, i)>>
HasNext(a, i) == Pos(a, i) < N(a) - 1
NextVox(a, i) == i + Stride(a)
HasPrev(a, i) == Pos(a, i) > 0
PrevVox(a, i) == i - Stride(a)
Area(a) == IF a = 1 THEN DMul(Dim(2), Dim(3)) ELSE IF a = 2 THEN DMul(Dim(1), Dim(3)) ELSE DMul(Dim(1), Dim(2))
Vol == DMul(Dim(1), DMul(Dim(2), Dim(3)))
Center(a, i) == DAdd(req.c[a], DMul(Dim(a), DDiv(DInt(2*Pos(a, i) + 1 - N(a)), "2")))
Neigh(i) == { NextVox(a, i) : a \in { b \in Axes : HasNext(b, i) } }
      \union { PrevVox(a, i) : a \in { b \in Axes : HasPrev(b, i) } }

\* face-connected components of a set of voxels
AddVox(i, cs) ==
    LET hit == { k \in cs : k \intersect Neigh(i) # {} }
    IN  (cs \ hit) \union { {i} \union UNION hit }
Components(all) == FoldSet(AddVox, {}, all)

---------------------------------------------------------------------------
(* materials and sources *)

Mats == 1..Len(req.mats)
Srcs == 1..Len(req.srcs)
IsElectric(m) == req.mats[m].type \in {"electric", "electromagnetic"}
IsMagnetic(m) == req.mats[m].type \in {"magnetic", "electromagnetic"}

Join(domains) == FlattenSeq([k \in 1..Len(domains) |-> req.dom[domains[k]]])

NoDomain == (\E m \in Mats : req.mats[m].domains = <<>>) \/ (\E s \in Srcs : req.srcs[s].domains = <<>>)
UnknownDomain == \/ \E m \in Mats : \E k \in 1..Len(req.mats[m].domains) : req.mats[m].domains[k] \notin DOMAIN req.dom
                 \/ \E s \in Srcs : \E k \in 1..Len(req.srcs[s].domains) : req.srcs[s].domains[k] \notin DOMAIN req.dom
MissingValue == \/ \E m \in Mats : ~req.mats[m].given
                \/ \E s \in Srcs : ~req.srcs[s].given

Used == UNION { ToSet(req.dom[t]) : t \in DOMAIN req.dom }
ElectricVox == UNION { ToSet(mvox[m]) : m \in { k \in Mats : IsElectric(k) } }
MagneticVox == UNION { ToSet(mvox[m]) : m \in { k \in Mats : IsMagnetic(k) } }
SourceVox   == UNION { ToSet(svox[s]) : s \in Srcs }

NoElectric == ElectricVox = {}
NoSource   == SourceVox = {}
Outside    == ~(SourceVox \subseteq ElectricVox)
Floating   == \E k \in Components(Used) : k \intersect ElectricVox # {} /\ k \intersect SourceVox = {}

\* two materials of the same kind (or two sources) never share a voxel in a well-posed problem
Unique == /\ \A m \in Mats : IsInjective(mvox[m])
          /\ \A s \in Srcs : IsInjective(svox[s])
          /\ \A m, l \in Mats : m # l /\ ((IsElectric(m) /\ IsElectric(l)) \/ (IsMagnetic(m) /\ IsMagnetic(l)))
                => ToSet(mvox[m]) \intersect ToSet(mvox[l]) = {}
          /\ \A s, l \in Srcs : s # l => ToSet(svox[s]) \intersect ToSet(svox[l]) = {}

\* fields of the values of a material, of a source
MatFields(m) == (IF IsElectric(m) THEN {"rho_re", "rho_im"} ELSE {}) \union (IF IsMagnetic(m) THEN {"chi_re", "chi_im"} ELSE {})
SrcFields(s) == IF req.srcs[s].type = "current" THEN {"I_re", "I_im", "Y_re", "Y_im"} ELSE {"V_re", "V_im", "Z_re", "Z_im"}

BadLength ==
    \/ \E m \in Mats : \E f \in MatFields(m) :
         LET x == req.mats[m]
         IN  \/ x.var = "distributed" /\ Len(x.val[f]) # Len(mvox[m])
             \/ x.var = "distributed" /\ x.orient = "anisotropic" /\ \E k \in 1..Len(x.val[f]) : Len(x.val[f][k]) # 3
             \/ x.var = "lumped" /\ x.orient = "anisotropic" /\ Len(x.val[f]) # 3
    \/ \E s \in Srcs : \E f \in SrcFields(s) :
         req.srcs[s].var = "distributed" /\ Len(req.srcs[s].val[f]) # Len(svox[s])

\* an empty list of triples has no definite shape (accepted or not)
EmptyTriples == \E m \in Mats : mvox[m] = <<>> /\ req.mats[m].var = "distributed" /\ req.mats[m].orient = "anisotropic"

\* value of a field of a material for its k-th voxel along the axis a
MatValue(m, f, k, a) ==
    LET x == req.mats[m]
        v == x.val[f]
    IN  IF x.var = "lumped" THEN (IF x.orient = "isotropic" THEN v ELSE v[a])
        ELSE (IF x.orient = "isotropic" THEN v[k] ELSE v[k][a])
SrcValue(s, f, k) == IF req.srcs[s].var = "lumped" THEN req.srcs[s].val[f] ELSE req.srcs[s].val[f][k]

Rho(m, k) == [a \in Axes |-> <<MatValue(m, "rho_re", k, a), MatValue(m, "rho_im", k, a)>>]
\* magnetic resistivity: 1 / (mu0 * (chi_re - j chi_im))
RhoMag(m, k) == [a \in Axes |->
    CInv(CScale(MU0, <<MatValue(m, "chi_re", k, a), DNeg(MatValue(m, "chi_im", k, a))>>))]

\* equation of the k-th voxel of a source: I + el*V = val (current) or V + el*I = val (voltage)
\* lumped sources: the current (and admittance) is shared among the voxels in parallel
SrcEq(s, k) ==
    LET count == DInt(Len(svox[s]))
        lumped == req.srcs[s].var = "lumped"
        X(re, im) == <<SrcValue(s, re, k), SrcValue(s, im, k)>>
        Over(x) == IF lumped THEN CScale(DDiv("1", count), x) ELSE x
        Times(x) == IF lumped THEN CScale(count, x) ELSE x
    IN  IF req.srcs[s].type = "current"
        THEN [type |-> "current", val |-> Over(X("I_re", "I_im")), el |-> Over(X("Y_re", "Y_im"))]
        ELSE [type |-> "voltage", val |-> X("V_re", "V_im"), el |-> Times(X("Z_re", "Z_im"))]

---------------------------------------------------------------------------
(* network *)

\* function on the voxels of some materials (of a well-posed problem)
Spread(ms, Op(_, _)) == FoldFunction(LAMBDA x, y : x @@ y, <<>>, [m \in ms |->
    [i \in ToSet(mvox[m]) |-> Op(m, CHOOSE k \in 1..Len(mvox[m]) : mvox[m][k] = i)]])

Faces(vs) == SetToSeq({ <<a, i>> \in Axes \X vs : HasNext(a, i) /\ NextVox(a, i) \in vs })
Resist(f, rho) ==
    LET a == f[1]  i == f[2]  j == NextVox(a, i)
    IN  CScale(DDiv(Dim(a), DMul("2", Area(a))), CAdd(rho[i][a], rho[j][a]))

Network ==
    LET er == Spread({ m \in Mats : IsElectric(m) }, Rho)
        mr == Spread({ m \in Mats : IsMagnetic(m) }, RhoMag)
        fe == Faces(DOMAIN er)
        fm == Faces(DOMAIN mr)
        sq == FoldFunction(LAMBDA x, y : x @@ y, <<>>, [s \in Srcs |->
                 [i \in ToSet(svox[s]) |-> SrcEq(s, CHOOSE k \in 1..Len(svox[s]) : svox[s][k] = i)]])
    IN  [e |-> DOMAIN er, m |-> DOMAIN mr, fe |-> fe, fm |-> fm, s |-> sq,
         re |-> [k \in 1..Len(fe) |-> Resist(fe[k], er)],
         rm |-> [k \in 1..Len(fm) |-> Resist(fm[k], mr)]]

Static  == DEq(req.freq, "0")
NoNet   == [e |-> {}, m |-> {}, fe |-> <<>>, fm |-> <<>>, s |-> <<>>, re |-> <<>>, rm |-> <<>>]
NoTab   == [g |-> <<>>, dg |-> <<>>]

\* integrals needed by the problem: G if there is an inductance or a magnetic charge, dG if there is a coupling
Integrals ==
    LET needG == ~Static \/ net.m # {}
        needD == net.m # {}
        f  == FTable(req.n, req.d)
        df == [a \in Axes |-> DFTable(req.n, req.d, a)]
    IN  [g  |-> IF needG THEN [p \in Offsets(req.n) |-> GreenAt(f, p)] ELSE <<>>,
         dg |-> IF needD THEN [a \in Axes |-> [p \in Offsets(req.n) |-> DGreenAt(df[a], a, p)]] ELSE <<>>]

---------------------------------------------------------------------------
(* behaviours *)

InitWith(r) ==
    /\ req = r /\ phase = "names" /\ why = ""
    /\ mvox = <<>> /\ svox = <<>> /\ net = NoNet /\ tab = NoTab

Refuse(reason) == phase' = "refused" /\ why' = reason /\ UNCHANGED <<req, mvox, svox, net, tab>>
Goto(p) == phase' = p /\ UNCHANGED <<req, why>>

Names ==
    /\ phase = "names"
    /\ IF NoDomain THEN Refuse("no domain")
       ELSE IF UnknownDomain THEN Refuse("unknown domain")
       ELSE IF MissingValue THEN Refuse("missing value")
       ELSE Goto("voxels") /\ UNCHANGED <<mvox, svox, net, tab>>

Voxels ==
    /\ phase = "voxels"
    /\ mvox' = [m \in Mats |-> Join(req.mats[m].domains)]
    /\ svox' = [s \in Srcs |-> Join(req.srcs[s].domains)]
    /\ Goto("place") /\ UNCHANGED <<net, tab>>

Place ==
    /\ phase = "place"
    /\ IF NoElectric THEN Refuse("no electric voxel")
       ELSE IF NoSource THEN Refuse("no source voxel")
       ELSE IF Outside THEN Refuse("source outside")
       ELSE IF Floating THEN Refuse("component without source")
       ELSE Goto("values") /\ UNCHANGED <<mvox, svox, net, tab>>

Values ==
    /\ phase = "values"
    /\ IF BadLength THEN Refuse("value length")
       ELSE IF ~Unique \/ EmptyTriples THEN phase' = "unspecified" /\ UNCHANGED <<req, why, mvox, svox, net, tab>>
       ELSE Goto("network") /\ UNCHANGED <<mvox, svox, net, tab>>

Connect ==
    /\ phase = "network"
    /\ net' = Network
    /\ Goto("integrals") /\ UNCHANGED <<mvox, svox, tab>>

Integrate ==
    /\ phase = "integrals"
    /\ tab' = Integrals
    /\ Goto("done") /\ UNCHANGED <<mvox, svox, net>>

Run == Names \/ Voxels \/ Place \/ Values \/ Connect \/ Integrate
Final == phase \in {"done", "refused", "unspecified"}

---------------------------------------------------------------------------
(* well-posedness of the network: the potential of every electric component is fixed by a source *)

FixesPotential(i) == net.s[i].type = "voltage" \/ ~DEq(CAbs2(net.s[i].el), "0")
Referenced == \A k \in Components(net.e) : \E i \in k : i \in DOMAIN net.s /\ FixesPotential(i)

---------------------------------------------------------------------------
(* solution: flows of the faces from the densities of the voxels *)

\* a voxel carries the mean of the flows of its two faces (a missing face carries nothing)
RECURSIVE Through(_, _, _, _)
Through(J, vs, a, i) ==
    CSub(CScale(DMul("2", Area(a)), J[i][a]),
         IF HasPrev(a, i) /\ PrevVox(a, i) \in vs THEN Through(J, vs, a, PrevVox(a, i)) ELSE CZero)

\* flow leaving each voxel through its upper faces (zero if there is no such face)
Flow(J, vs) == [f \in Axes \X vs |-> Through(J, vs, f[1], f[2])]
IsFace(vs, f) == HasNext(f[1], f[2]) /\ NextVox(f[1], f[2]) \in vs

Div(F, vs, i) == CSum([a \in Axes |->
    CSub(IF IsFace(vs, <<a, i>>) THEN F[<<a, i>>] ELSE CZero,
         IF HasPrev(a, i) /\ PrevVox(a, i) \in vs THEN F[<<a, PrevVox(a, i)>>] ELSE CZero)])

Omega == DMul(DMul("2", DPi), req.freq)
JOmega(x) == CMul(<<"0", Omega>>, x)

\* offset of two voxels, and the integrals at this offset
Off(i, j) == LET p == CellOf(i) q == CellOf(j) IN <<GAbs(p[1]-q[1]), GAbs(p[2]-q[2]), GAbs(p[3]-q[3])>>
G(i, j) == tab.g[Off(i, j)]
DG(a, i, j) == IF Pos(a, i) >= Pos(a, j) THEN tab.dg[a][Off(i, j)] ELSE DNeg(tab.dg[a][Off(i, j)])

\* sum of real weights times complex values
CDot(w, x) == <<DDot(w, [k \in 1..Len(x) |-> x[k][1]]), DDot(w, [k \in 1..Len(x) |-> x[k][2]])>>

\* flux linked with an electric face: inductance of bricks carrying uniform currents
Linked(f, I) ==
    CScale(DDiv(MU0, P2(Area(f[1]))),
        CDot([k \in 1..Len(net.fe) |-> IF net.fe[k][1] = f[1] THEN G(f[2], net.fe[k][2]) ELSE "0"], I))

\* cyclic order of the axes
Third(a, b) == 6 - a - b
Eps(a, b) == IF (b - a) \in {1, -2} THEN "1" ELSE "-1"

\* kernel of the field along a at the voxel m of a current density along b in the voxel e
Kernel(m, a, e, b) == DNeg(DMul(Eps(a, b), DG(Third(a, b), m, e)))

\* magnetomotive force along a of the currents J in the voxel m
Others(a) == SetToSeq(Axes \ {a})
Mmf(m, a, J) ==
    LET vs == SetToSeq(net.e)
    IN  CScale(DDiv("1", Area(a)), CSum([l \in 1..2 |-> LET b == Others(a)[l] IN
            CDot([k \in 1..Len(vs) |-> Kernel(m, a, vs[k], b)], [k \in 1..Len(vs) |-> J[vs[k]][b]])]))
\* flux linked along b with the voxel e due to the flux densities B
Emf(e, b, B) ==
    LET vs == SetToSeq(net.m)
    IN  CScale(DDiv("1", Area(b)), CSum([l \in 1..2 |-> LET a == Others(b)[l] IN
            CDot([k \in 1..Len(vs) |-> Kernel(vs[k], a, e, b)], [k \in 1..Len(vs) |-> B[vs[k]][a]])]))
MeanFace(f, X) == CScale("0.5", CAdd(X[<<f[1], f[2]>>], X[<<f[1], NextVox(f[1], f[2])>>]))

---------------------------------------------------------------------------
(* powers *)

PFact == IF Static THEN "1" ELSE "0.5"
WFact == IF Static THEN "0.5" ELSE "0.25"
Re(x) == x[1]
Im(x) == x[2]
Apparent(v, i) == CScale(PFact, CMul(v, CConj(i)))
=============================================================================
