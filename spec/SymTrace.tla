-------------------------------- MODULE SymTrace --------------------------------
(* Judgement of the solutions of transformed problems: a record is a problem,   *)
(* its solution (obs), and terms [how, obs]: solutions of transformed problems. *)
(* Brought back with the history of the transformations (how), the sum of the   *)
(* terms has to be the solution of the problem.                                 *)
EXTENDS PeecTrace

Terms2 == Trace[id].terms
One == Len(Terms2) = 1
Brought(h) == [vox |-> [i \in 0..(Len(h.vox)-1) |-> h.vox[i+1]], axis |-> h.axis, sign |-> h.sign, par |-> h.par,
               live |-> ToSet(h.live), ops |-> ToSet(h.ops), w |-> CInv(h.fac)]

\* the terms are the parts of a superposition: each source voxel is active once
Complete == \A i \in DOMAIN net.s : Cardinality({ k \in 1..Len(Terms2) : i \in ToSet(Terms2[k].how.live) }) = 1

---------------------------------------------------------------------------
(* fields of a solution, brought back to the voxels and axes of the problem *)

Sgn(x, y) == IF x = 1 THEN y ELSE CScale("-1", y)
Back(k) ==
    LET h == Brought(Terms2[k].how)
        o == Terms2[k].obs
        VC == ByVox(o.idx_vc, o.V_c)  JC == ByVox(o.idx_vc, o.J_c)  SC == ByVox(o.idx_vc, o.S_c)
        VM == ByVox(o.idx_vm, o.V_m)  BM == ByVox(o.idx_vm, o.B_m)  QM == ByVox(o.idx_vm, o.Q_m)
        W(x) == CMul(h.w, x)
        Par(x) == W(Sgn(h.par, x))
    IN  [V |-> [i \in net.e |-> W(VC[h.vox[i]])],
         S |-> [i \in net.e |-> W(SC[h.vox[i]])],
         J |-> [i \in net.e |-> [a \in Axes |-> W(Sgn(h.sign[a], JC[h.vox[i]][h.axis[a]]))]],
         U |-> [i \in net.m |-> Par(VM[h.vox[i]])],
         Q |-> [i \in net.m |-> Par(QM[h.vox[i]])],
         B |-> [i \in net.m |-> [a \in Axes |-> Par(Sgn(h.sign[a], BM[h.vox[i]][h.axis[a]]))]],
         H |-> [n \in 1..Len(req.pts) |-> [a \in Axes |-> Par(Sgn(h.sign[a], o.H_p[n][h.axis[a]]))]]]

\* the transformed problem has the same voxels
ImageShape(k) ==
    LET o == Terms2[k].obs  h == Brought(Terms2[k].how) IN
    /\ o.ok
    /\ IsInjective(o.idx_vc) /\ ToSet(o.idx_vc) = { h.vox[i] : i \in net.e }
    /\ IsInjective(o.idx_vm) /\ ToSet(o.idx_vm) = { h.vox[i] : i \in net.m }
    /\ \A x \in {"V_c", "P_c", "S_c", "J_c"} : Len(o[x]) = Len(o.idx_vc)
    /\ \A x \in {"V_m", "P_m", "Q_m", "B_m"} : Len(o[x]) = Len(o.idx_vm)
    /\ Len(o.H_p) = Len(req.pts)

Own ==
    LET V == ByVox(Obs.idx_vc, Obs.V_c)
        J == ByVox(Obs.idx_vc, Obs.J_c)
        U == ByVox(Obs.idx_vm, Obs.V_m)
        B == ByVox(Obs.idx_vm, Obs.B_m)
        F == Flow(J, net.e)
        H == Flow(B, net.m)
    IN  [V |-> V, J |-> J, U |-> U, B |-> B,
         I |-> [k \in 1..Len(net.fe) |-> F[net.fe[k]]],
         X |-> [k \in 1..Len(net.fm) |-> H[net.fm[k]]],
         S |-> [i \in net.e |-> Div(F, net.e, i)],
         SD |-> ByVox(Obs.idx_vc, Obs.S_c), QD |-> ByVox(Obs.idx_vm, Obs.Q_m),
         P |-> ByVox(Obs.idx_vc, Obs.P_c), PM |-> ByVox(Obs.idx_vm, Obs.P_m),
         back |-> [k \in 1..Len(Terms2) |-> Back(k)]]

Images == \A k \in 1..Len(Terms2) : ImageShape(k)
ObserveSym ==
    /\ phase = "done" /\ fld = NoFld /\ Obs.ok /\ Shaped /\ Len(Obs.H_p) = Len(req.pts) /\ Images
    /\ fld' = Own
    /\ UNCHANGED <<vars, id, verdict>>

---------------------------------------------------------------------------
(* clauses: the sum of the terms is the solution *)

TermsOf(f(_)) == [k \in 1..Len(Terms2) |-> f(fld.back[k])]
SumC(f(_)) == CSum(TermsOf(f))
\* scale of a quantity: the largest value in the solution and in the terms
Scale3(own, f(_)) == DMaxAbs(<<MaxAbs(own)>> \o [k \in 1..Len(Terms2) |-> MaxAbs(f(fld.back[k]))])
Flat(vs, x) == LET s == SetToSeq(vs) IN FlattenSeq([k \in 1..Len(s) |-> x[s[k]]])

ScalarField(vs, own, f(_), floor) ==
    LET F(b) == ValsOf(f(b))
        sc == DMax(floor, Scale3(ValsOf(own), F))
    IN  \A i \in vs : LET G1(b) == f(b)[i] IN Close(own[i], SumC(G1), sc, Tol)
VectorField(vs, own, f(_), floor) ==
    LET F(b) == Flat(vs, f(b))
        sc == DMax(floor, Scale3(Flat(vs, own), F))
    IN  \A i \in vs : \A a \in Axes : LET G1(b) == f(b)[i][a] IN Close(own[i][a], SumC(G1), sc, Tol)

MinArea == LET s == [a \in Axes |-> Area(a)] IN DMul("-1", DMax(DNeg(s[1]), DMax(DNeg(s[2]), DNeg(s[3]))))
JFloor == DDiv(ITerm, MinArea)
BFloor == IF net.m = {} \/ net.fm = <<>> THEN "0" ELSE DDiv(XFloor, MinArea)

PotSame  == LET f(b) == b.V IN ScalarField(net.e, fld.V, f, "0")
CurSame  == LET f(b) == b.J IN VectorField(net.e, fld.J, f, JFloor)
DivSame  == LET f(b) == b.S IN ScalarField(net.e, fld.SD, f, DDiv(ITerm, Vol))
MagSame  == LET f(b) == b.U IN ScalarField(net.m, fld.U, f, UFloor)
FluxSame == LET f(b) == b.B IN VectorField(net.m, fld.B, f, BFloor)
ChargeSame == LET f(b) == b.Q IN ScalarField(net.m, fld.QD, f, DDiv(DMul("4", DMul(BFloor, MinArea)), Vol))
\* magnetic field of currents and charges which are not more than a rounding, at the nearest distance
Far(p) == LET r == [k \in 1..Len(Obs.idx_vc \o Obs.idx_vm) |->
                    DNeg(Dist(p, [b \in Axes |-> Center(b, (Obs.idx_vc \o Obs.idx_vm)[k])]))]
          IN  DNeg(FoldLeft(LAMBDA x, y : DMax(x, y), Head(r), r))
Longest == DMax(Dim(1), DMax(Dim(2), Dim(3)))
HFloor(p) ==
    LET k == DDiv("1", DMul(DMul("4", DPi), P2(Far(p))))
    IN  DAdd(DMul(k, DMul(DInt(Len(net.fe)), DMul(ITerm, Longest))),
             DMul(k, DDiv(DMul(DInt(Len(net.fm)), DMul(BFloor, MinArea)), MU0)))
FieldSame == LET f(b) == b.H IN \A n \in 1..Len(req.pts) :
    LET g(b) == <<b.H[n]>> IN VectorField({1}, <<Obs.H_p[n]>>, g, HFloor(req.pts[n]))

\* terminal quantities of the sources, losses of the materials
Split2 == { "split source" }
SameSources == \A k \in 1..Len(Terms2) : Brought(Terms2[k].how).ops \intersect Split2 = {}
SameMaterials == \A k \in 1..Len(Terms2) : "split material" \notin Brought(Terms2[k].how).ops
TermSame == SameSources =>
    /\ \A k \in 1..Len(Terms2) : DOMAIN Terms2[k].obs.source = DOMAIN Obs.source
    /\ \A t \in DOMAIN Obs.source :
        LET v == CSum([k \in 1..Len(Terms2) |-> CMul(Brought(Terms2[k].how).w, Terms2[k].obs.source[t].V)])
            i == CSum([k \in 1..Len(Terms2) |-> CMul(Brought(Terms2[k].how).w, Terms2[k].obs.source[t].I)])
            f(b) == ValsOf(b.V)
            g(b) == ValsOf(b.S)
            si == DMul(DInt(Cardinality(net.e)), DMax(ITerm, DMul(Vol, Scale3(ValsOf(fld.SD), g))))
        IN  Close(Obs.source[t].V, v, Scale3(ValsOf(fld.V), f), Tol) /\ Close(Obs.source[t].I, i, si, Tol)

\* powers and energies: squared magnitude of the factor (a single term)
Sq == DDiv("1", CAbs2(Terms2[1].how.fac))
PowerSame == One =>
    LET o == Terms2[1].obs
        ps == DMaxAbs(<<SScale, Obs.P_electric, Obs.P_magnetic>>)
        P(x, y, sc) == Near(x, DMul(Sq, y), sc, Tol)
    IN  /\ P(Obs.P_electric, o.P_electric, ps) /\ P(Obs.P_magnetic, o.P_magnetic, ps) /\ P(Obs.P_total, o.P_total, ps)
        /\ Close(Obs.S_total, CScale(Sq, o.S_total), SScale, Tol)
        /\ SameSources => \A t \in DOMAIN Obs.source : Close(Obs.source[t].S, CScale(Sq, o.source[t].S), SScale, Tol)
        /\ SameMaterials =>
            /\ DOMAIN o.material = DOMAIN Obs.material
            /\ \A t \in DOMAIN Obs.material : \A x \in {"P_electric", "P_magnetic", "P_total"} :
                P(Obs.material[t][x], o.material[t][x], ps)
EScale(e) == DAdd(e, DMul("1e-9", DMul(MU0, DMul(Dim(1), P2(ITerm)))))
EnergySame == One =>
    LET o == Terms2[1].obs
        es == EScale(DAdd(DAbs(Obs.W_electric), DAbs(Obs.W_magnetic)))
    IN  \A x \in {"W_electric", "W_magnetic", "W_total"} : Near(Obs[x], DMul(Sq, o[x]), es, Tol)
DensitySame == One =>
    LET o == Terms2[1].obs
        h == Brought(Terms2[1].how)
        PC == ByVox(o.idx_vc, o.P_c)
        PM == ByVox(o.idx_vm, o.P_m)
        sc == DMax(MaxAbs(Obs.P_c), DMul("1e-6", DDiv(SScale, Vol)))
        sm == DMax(MaxAbs(Obs.P_m), DMul("1e-6", DDiv(SScale, Vol)))
    IN  /\ \A i \in net.e : Close(fld.P[i], CScale(Sq, PC[h.vox[i]]), sc, Tol)
        /\ \A i \in net.m : Close(fld.PM[i], CScale(Sq, PM[h.vox[i]]), sm, Tol)
---------------------------------------------------------------------------

AllConverged == Obs.converged /\ \A k \in 1..Len(Terms2) : Terms2[k].obs.converged
\* with weak requirements (other couplings), a term without convergence is not judged
MayStall == \E k \in 1..Len(Terms2) : Terms2[k].maystall /\ ~Terms2[k].obs.converged

Same ==
         Failing("image: potentials", PotSame)
      \o Failing("image: current densities", CurSame)
      \o Failing("image: divergence of the currents", DivSame)
      \o Failing("image: magnetic potentials", MagSame)
      \o Failing("image: flux densities", FluxSame)
      \o Failing("image: magnetic charges", ChargeSame)
      \o Failing("image: field at the points", FieldSame)
      \o Failing("image: terminals", TermSame)
      \o Failing("image: powers", PowerSame)
      \o Failing("image: energies", EnergySame)
      \o Failing("image: loss densities", DensitySame)

OutcomeSym ==
    IF phase # "done" \/ ~Referenced THEN <<"machinery: not a valid problem">>
    ELSE IF ~Complete THEN <<"machinery: not a superposition">>
    ELSE IF ~Obs.ok \/ ~Shaped THEN <<"image: problem refused, or wrong shape">>
    ELSE IF ~Images THEN <<"image: transformed problem refused, or other voxels">>
    ELSE IF MayStall THEN <<>>
    ELSE IF ~AllConverged THEN <<"image: convergence">>
    ELSE Same

\* the integrals are not needed
JudgeSym ==
    /\ Final /\ verdict = ""
    /\ ~(ENABLED ObserveSym)
    /\ verdict' = ToJson([id |-> id, end |-> phase, why |-> why, bad |-> OutcomeSym])
    /\ PrintT("VERDICT " \o verdict')
    /\ UNCHANGED <<vars, id, fld>>

NextSym == Stage \/ ObserveSym \/ JudgeSym
=============================================================================
