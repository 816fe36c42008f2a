------------------------------- MODULE PeecTrace -------------------------------
(* Judgement of recorded solutions: each record is a problem and what the       *)
(* implementation made of it.  The specification runs on the problem, then the  *)
(* relations of a solution are evaluated on the recorded fields.                *)
EXTENDS Peec, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES id, fld, verdict

tvars == <<vars, id, fld, verdict>>

Obs == Trace[id].obs
Tol == Trace[id].tol        \* relative tolerance of the equations (decimal)
TolI == Trace[id].toli      \* same for the equations with potential integrals

NoFld == [V |-> <<>>]
Init == \E k \in 1..Len(Trace) : id = k /\ verdict = "" /\ fld = NoFld /\ InitWith(Trace[k].req)

\* brief records: only the admission of the problem is judged (no field is needed)
Brief == Trace[id].brief
\* structures of another size: the convergence of the solver is not expected
Loose == "loose" \in DOMAIN Trace[id] /\ Trace[id].loose
Skip == Brief /\ phase = "integrals" /\ phase' = "done" /\ UNCHANGED <<req, why, mvox, svox, net, tab>>
Stage == (IF Brief /\ phase = "integrals" THEN Skip ELSE Run) /\ UNCHANGED <<id, fld, verdict>>

---------------------------------------------------------------------------
(* recorded fields as functions of the voxels *)

ByVox(idx, x) == [i \in ToSet(idx) |-> x[CHOOSE k \in 1..Len(idx) : idx[k] = i]]

CountClause ==
    /\ IsInjective(Obs.idx_vc) /\ ToSet(Obs.idx_vc) = net.e
    /\ IsInjective(Obs.idx_vm) /\ ToSet(Obs.idx_vm) = net.m
    /\ Obs.n_voxel_total = N(1)*N(2)*N(3)
    /\ Obs.n_face_total = 3*N(1)*N(2)*N(3)
    /\ Obs.n_voxel_electric = Cardinality(net.e)
    /\ Obs.n_voxel_magnetic = Cardinality(net.m)
    /\ Obs.n_face_electric = Len(net.fe)
    /\ Obs.n_face_magnetic = Len(net.fm)
    /\ Obs.n_src_current = Cardinality({ i \in DOMAIN net.s : net.s[i].type = "current" })
    /\ Obs.n_src_voltage = Cardinality({ i \in DOMAIN net.s : net.s[i].type = "voltage" })
    /\ Obs.n_voxel_used = Obs.n_voxel_electric + Obs.n_voxel_magnetic
    /\ Obs.n_face_used = Obs.n_face_electric + Obs.n_face_magnetic
    /\ DClose(Obs.ratio_voxel, DDiv(DInt(Obs.n_voxel_used), DInt(Obs.n_voxel_total)), "1e-9", "0")
    /\ DClose(Obs.ratio_face, DDiv(DInt(Obs.n_face_used), DInt(Obs.n_face_total)), "1e-9", "0")

SizeClause == \A x \in {"V_c", "P_c", "S_c", "J_c"} : Len(Obs[x]) = Len(Obs.idx_vc)
SizeClauseM == \A x \in {"V_m", "P_m", "Q_m", "B_m"} : Len(Obs[x]) = Len(Obs.idx_vm)
Shaped == CountClause /\ SizeClause /\ SizeClauseM

\* everything that is derived from the recorded fields once
Fields ==
    LET V == ByVox(Obs.idx_vc, Obs.V_c)
        J == ByVox(Obs.idx_vc, Obs.J_c)
        U == ByVox(Obs.idx_vm, Obs.V_m)
        B == ByVox(Obs.idx_vm, Obs.B_m)
        F == Flow(J, net.e)
        H == Flow(B, net.m)
        coupled == net.m # {} /\ net.e # {}
    IN  [V |-> V, J |-> J, U |-> U, B |-> B, F |-> F, H |-> H,
         I |-> [k \in 1..Len(net.fe) |-> F[net.fe[k]]],
         X |-> [k \in 1..Len(net.fm) |-> H[net.fm[k]]],
         S |-> [i \in net.e |-> Div(F, net.e, i)],
         Q |-> [i \in net.m |-> Div(H, net.m, i)],
         P |-> ByVox(Obs.idx_vc, Obs.P_c), PM |-> ByVox(Obs.idx_vm, Obs.P_m),
         SD |-> ByVox(Obs.idx_vc, Obs.S_c), QD |-> ByVox(Obs.idx_vm, Obs.Q_m),
         emf |-> IF coupled THEN [f \in Axes \X net.e |-> Emf(f[2], f[1], B)] ELSE <<>>,
         mmf |-> IF coupled THEN [f \in Axes \X net.m |-> Mmf(f[2], f[1], J)] ELSE <<>>]

\* terms which need the flows (linked fluxes, and the scales of the equations)
Linkages == [k \in 1..Len(net.fe) |-> IF Static THEN CZero ELSE Linked(net.fe[k], fld.I)]
EmfFace  == [k \in 1..Len(net.fe) |-> IF net.m = {} THEN CZero ELSE MeanFace(net.fe[k], fld.emf)]

Observe ==
    /\ phase = "done" /\ fld = NoFld /\ Obs.ok /\ ~Brief
    /\ Shaped
    /\ fld' = Fields
    /\ UNCHANGED <<vars, id, verdict>>

---------------------------------------------------------------------------
(* clauses *)

MaxAbs(s) == DMaxAbs(FlattenSeq(s))   \* largest component of a sequence of complex numbers
ValsOf(f) == LET ks == SetToSeq(DOMAIN f) IN [k \in 1..Len(ks) |-> f[ks[k]]]
Small(x, scale, tol) == DLe(CAbs(x), DAdd(DMul(tol, scale), "1e-150"))
Close(x, y, scale, tol) == Small(CSub(x, y), scale, tol)
Drop(f, V) == CSub(V[f[2]], V[NextVox(f[1], f[2])])

SeqScale(s) == MaxAbs(s)
IScale == MaxAbs(fld.I)
VScale == MaxAbs(ValsOf(fld.V))
\* rounding of the solver: a small part of the potentials over the smallest resistance
GScale == DMaxAbs([k \in 1..Len(net.re) |-> IF DEq(CAbs(net.re[k]), "0") THEN "0" ELSE DDiv("1", CAbs(net.re[k]))])
\* all the currents around (also those injected and not flowing)
ITerm  == DMaxAbs(<< IScale, MaxAbs(ValsOf(fld.S)), DMul("1e-4", DMul(VScale, GScale)),
                     MaxAbs(ValsOf([i \in DOMAIN net.s |-> IF net.s[i].type = "current" THEN net.s[i].val ELSE CZero])) >>)

\* magnetomotive forces and fluxes which are not more than the rounding of the solver
UFloor == DMul("1e-4", ITerm)
XFloor == DMul(UFloor, DMaxAbs([k \in 1..Len(net.rm) |-> DDiv("1", CAbs(net.rm[k]))]))

\* the mean of the flows of the faces is the density of the voxel
FlowClause(F, vs, J, floor) ==
    LET sc == DMaxAbs(<<floor>> \o [a \in Axes |-> DMul(Area(a), MaxAbs(ValsOf([i \in vs |-> J[i][a]])))])
    IN  \A a \in Axes : \A i \in vs : ~IsFace(vs, <<a, i>>) => Small(F[<<a, i>>], sc, "1e-7")

DivClause(D, SD, vs, scale) == \A i \in vs :
    Close(D[i], CScale(Vol, SD[i]), scale, "1e-7")

\* current injected in a voxel: by the source equation
BalanceClause == \A i \in net.e : i \notin DOMAIN net.s => Small(fld.S[i], ITerm, Tol)
SourceClause == \A i \in DOMAIN net.s :
    LET q == net.s[i]
        cur == q.type = "current"
        x == IF cur THEN fld.S[i] ELSE fld.V[i]
        y == CMul(q.el, IF cur THEN fld.V[i] ELSE fld.S[i])
    IN  Close(CAdd(x, y), q.val,
              IF cur THEN DMax(ITerm, CAbs(y)) ELSE DMax(VScale, DMax(CAbs(y), CAbs(q.val))), Tol)

\* potential difference of touching voxels
KvlScale == DMaxAbs(<< DMul("1e-4", VScale), MaxAbs([k \in 1..Len(net.fe) |-> CMul(net.re[k], fld.I[k])]),
                       MaxAbs([k \in 1..Len(net.fe) |-> Drop(net.fe[k], fld.V)]) >>)
KvlClause ==
    LET link == Linkages  emf == EmfFace
        sc == DMax(KvlScale, DMul(Omega, DMax(MaxAbs(link), MaxAbs(emf))))
    IN  \A k \in 1..Len(net.fe) :
        Close(CSum(<<CMul(net.re[k], fld.I[k]), JOmega(link[k]), JOmega(emf[k])>>), Drop(net.fe[k], fld.V), sc, TolI)
StaticClause == \A k \in 1..Len(net.fe) :
        Close(CMul(net.re[k], fld.I[k]), Drop(net.fe[k], fld.V), KvlScale, Tol)

\* magnetic potential: of the magnetic charges
ChargePot(i) == LET vs == SetToSeq(net.m) IN
    CScale(DNeg(DDiv("1", DMul(MU0, P2(Vol)))), CDot([k \in 1..Len(vs) |-> G(i, vs[k])], [k \in 1..Len(vs) |-> fld.Q[vs[k]]]))
PotClause ==
    LET pot == [i \in net.m |-> ChargePot(i)]
        sc == DMax(UFloor, DMax(MaxAbs(ValsOf(pot)), MaxAbs(ValsOf(fld.U))))
    IN  \A i \in net.m : Close(pot[i], fld.U[i], sc, TolI)
MagClause ==
    LET drv == [k \in 1..Len(net.fm) |-> MeanFace(net.fm[k], fld.mmf)]
        res == [k \in 1..Len(net.fm) |-> CMul(net.rm[k], fld.X[k])]
        sc  == DMax(UFloor, DMax(MaxAbs(drv), DMax(MaxAbs(res), MaxAbs(ValsOf(fld.U)))))
    IN  \A k \in 1..Len(net.fm) : Close(res[k], CAdd(drv[k], Drop(net.fm[k], fld.U)), sc, TolI)

\* terminal quantities
Terms == 1..Len(req.srcs)
TermV(s) == CScale(DDiv("1", DInt(Len(svox[s]))), CSum([k \in 1..Len(svox[s]) |-> fld.V[svox[s][k]]]))
TermI(s) == CSum([k \in 1..Len(svox[s]) |-> fld.S[svox[s][k]]])
TermS(s) == CSum([k \in 1..Len(svox[s]) |-> Apparent(fld.V[svox[s][k]], fld.S[svox[s][k]])])
TermTags == DOMAIN Obs.source = { req.srcs[s].tag : s \in Terms }
TermClause == TermTags /\ \A s \in Terms :
    LET o == Obs.source[req.srcs[s].tag]
    IN  IF svox[s] = <<>> THEN Small(o.V, "1", "0") /\ Small(o.I, "1", "0")
        ELSE Close(o.V, TermV(s), VScale, "1e-7") /\ Close(o.I, TermI(s), DMul(ITerm, DInt(Len(svox[s]))), "1e-7")
SScale == DMul(DMul(VScale, ITerm), DInt(Cardinality(DOMAIN net.s)))
TermSClause == TermTags /\ \A s \in Terms :
    Close(Obs.source[req.srcs[s].tag].S, IF svox[s] = <<>> THEN CZero ELSE TermS(s), SScale, "1e-7")
TotalSClause == Close(Obs.S_total, CSum([s \in Terms |-> Obs.source[req.srcs[s].tag].S]), SScale, "1e-7")

\* losses: of the faces, half for each of the two voxels
LossE == [k \in 1..Len(net.fe) |-> DMul(PFact, DMul(Re(net.re[k]), CAbs2(fld.I[k])))]
LossM == [k \in 1..Len(net.fm) |-> Re(CScale(PFact, CMul(CConj(JOmega(fld.X[k])), CMul(net.rm[k], fld.X[k]))))]
VoxLoss(fs, loss, i) == DMul("0.5", DSum([k \in 1..Len(fs) |->
    IF fs[k][2] = i \/ NextVox(fs[k][1], fs[k][2]) = i THEN loss[k] ELSE "0"]))
DensityClause(fs, loss, vs, P) == LET sc == DMax(DMul("1e-6", SScale), DMaxAbs(loss)) IN
    \A i \in vs : DNear(DMul(P[i][1], Vol), VoxLoss(fs, loss, i), DAdd(DMul("1e-6", sc), "1e-150"))
Near(x, y, sc, tol) == DNear(x, y, DAdd(DMul(tol, sc), "1e-150"))
AbsSum(s) == DSum([k \in 1..Len(s) |-> DAbs(s[k])])
LossClause ==
    LET le == LossE  lm == LossM
        tot == DSum(<<AbsSum(le), AbsSum(lm), DMul("1e-6", SScale)>>)
    IN  /\ Near(Obs.P_electric, DSum(le), tot, "1e-6")
        /\ Near(Obs.P_magnetic, DSum(lm), tot, "1e-6")
        /\ Near(Obs.P_total, DAdd(DSum(le), DSum(lm)), tot, "1e-6")
MatTags == DOMAIN Obs.material = { req.mats[m].tag : m \in Mats }
MaterialClause ==
    LET le == LossE  lm == LossM
        tot == DSum(<<AbsSum(le), AbsSum(lm), DMul("1e-6", SScale)>>)
        VE == [i \in net.e |-> VoxLoss(net.fe, le, i)]
        VM == [i \in net.m |-> VoxLoss(net.fm, lm, i)]
    IN  MatTags /\ \A m \in Mats :
        LET o == Obs.material[req.mats[m].tag]
            \* losses of the voxels of the material (the other kind of losses of a shared voxel included)
            pe == DSum([k \in 1..Len(mvox[m]) |-> IF mvox[m][k] \in net.e THEN VE[mvox[m][k]] ELSE "0"])
            pm == DSum([k \in 1..Len(mvox[m]) |-> IF mvox[m][k] \in net.m THEN VM[mvox[m][k]] ELSE "0"])
        IN  /\ Near(o.P_electric, pe, tot, "1e-6") /\ Near(o.P_magnetic, pm, tot, "1e-6")
            /\ Near(o.P_total, DAdd(pe, pm), tot, "1e-6")

\* stored energy: linked fluxes times currents
EnergyTerm(x) == DSum([k \in 1..Len(net.fe) |-> Re(CScale(WFact, CMul(CConj(fld.I[k]), x[k])))])
LinkAll == [k \in 1..Len(net.fe) |-> Linked(net.fe[k], fld.I)]
EnergyClause ==
    ~(Static /\ net.m = {}) =>
    LET we == EnergyTerm(LinkAll)
        wm == EnergyTerm(EmfFace)
        tot == DSum(<<DAbs(we), DAbs(wm), DMul("1e-9", DMul(MU0, DMul(Dim(1), P2(ITerm))))>>)
    IN  /\ Near(Obs.W_electric, we, tot, TolI) /\ Near(Obs.W_magnetic, wm, tot, TolI)
        /\ Near(Obs.W_total, DAdd(we, wm), tot, TolI)
TotalClause ==
    /\ Near(Obs.W_total, DAdd(Obs.W_electric, Obs.W_magnetic), DAdd(DAbs(Obs.W_electric), DAbs(Obs.W_magnetic)), "1e-9")
    /\ Near(Obs.P_total, DAdd(Obs.P_electric, Obs.P_magnetic), DAdd(DAbs(Obs.P_electric), DAbs(Obs.P_magnetic)), "1e-9")

\* power balance: losses (with the reactive part of complex resistivities) plus 2j omega W
BalancePower ==
    LET cx == CSum([k \in 1..Len(net.fe) |-> CScale(DMul(PFact, CAbs2(fld.I[k])), net.re[k])])
        w  == IF Static THEN "0" ELSE DMul(DMul("2", Omega), Obs.W_total)
        rhs == <<Obs.P_total, DAdd(Im(cx), w)>>
        part == DMul("2", DMul(Omega, DAdd(DAbs(Obs.W_electric), DAbs(Obs.W_magnetic))))
        sc == DMax(SScale, DMax(part, CAbs(cx)))
    IN  Close(Obs.S_total, rhs, sc, Tol)

Passive == \A k \in 1..Len(net.re) : DLe("0", Re(net.re[k]))
PassiveClause == Passive =>
    /\ \A i \in net.e : DLe(DNeg(DMul("1e-9", DMaxAbs(ValsOf([j \in net.e |-> fld.P[j][1]])))), fld.P[i][1])
    /\ DLe("0", Obs.P_electric)
    /\ DLe(DNeg(DMul("1e-9", DAbs(Obs.P_total))), Obs.P_magnetic)

\* field at the points
Vec(x) == [a \in Axes |-> DSub(x[1][a], x[2][a])]
Dist(p, r) == DSqrt(DSum([a \in Axes |-> P2(DSub(p[a], r[a]))]))
CrossC(J, R, a) == LET b == (a % 3) + 1  e == ((a + 1) % 3) + 1 IN
    CSub(CScale(R[e], J[b]), CScale(R[b], J[e]))
Cub(x) == DMul(x, P2(x))
FieldVox(p, a) == CSum([k \in 1..Len(Obs.idx_vc) |->
    LET i == Obs.idx_vc[k]
        R == [b \in Axes |-> DSub(p[b], Center(b, i))]
    IN  CScale(DDiv(Vol, DMul(DMul("4", DPi), Cub(Dist(p, [b \in Axes |-> Center(b, i)])))), CrossC(fld.J[i], R, a))])
FaceCenter(f) == [b \in Axes |-> DAdd(Center(b, f[2]), IF b = f[1] THEN DMul("0.5", Dim(b)) ELSE "0")]
FieldFace(p, a) == CSum([k \in 1..Len(net.fe) |->
    LET f == net.fe[k]
        o == FaceCenter(f)
        R == [b \in Axes |-> DSub(p[b], o[b])]
        I == [b \in Axes |-> IF b = f[1] THEN fld.I[k] ELSE CZero]
    IN  CScale(DDiv(Dim(f[1]), DMul(DMul("4", DPi), Cub(Dist(p, o)))), CrossC(I, R, a))])
FieldMag(p, a) == CSum([k \in 1..Len(Obs.idx_vm) |->
    LET i == Obs.idx_vm[k]
        o == [b \in Axes |-> Center(b, i)]
    IN  CScale(DDiv(DSub(o[a], p[a]), DMul(DMul(DMul("4", DPi), MU0), Cub(Dist(p, o)))), fld.Q[i])])
FieldAt(p, a) == CAdd(IF req.field = "voxel" THEN FieldVox(p, a) ELSE FieldFace(p, a), FieldMag(p, a))
FieldClause ==
    /\ Len(Obs.H_p) = Len(req.pts)
    /\ \A k \in 1..Len(req.pts) :
        LET h == [a \in Axes |-> FieldAt(req.pts[k], a)]
            \* scale: all the contributions are of this order
            sc == DMax(MaxAbs(h), DMaxAbs(FlattenSeq(Obs.H_p[k])))
        IN  \A a \in Axes : Close(h[a], Obs.H_p[k][a], sc, "1e-6")

\* grid, points and positions of the voxels which are delivered with the solution
NearPos(p, r) == Len(p) = 3 /\ \A a \in Axes : DLe(DAbs(DSub(p[a], r[a])), DAdd(DMul("1e-9", Dim(a)), DMul("1e-13", DAbs(r[a]))))
At3(i) == [b \in Axes |-> Center(b, i)]
GridClause ==
    LET g == Obs.grid IN
    /\ \A a \in Axes : g.n[a] = N(a) /\ DEq(g.d[a], Dim(a)) /\ DEq(g.c[a], req.c[a])
    /\ Len(g.pts) = Len(req.pts) /\ \A k \in 1..Len(req.pts) : \A a \in Axes : DEq(g.pts[k][a], req.pts[k][a])
    /\ Len(g.pos_c) = Len(Obs.idx_vc) /\ \A k \in 1..Len(g.pos_c) : NearPos(g.pos_c[k], At3(Obs.idx_vc[k]))
    /\ Len(g.pos_m) = Len(Obs.idx_vm) /\ \A k \in 1..Len(g.pos_m) : NearPos(g.pos_m[k], At3(Obs.idx_vm[k]))
    /\ DEq(g.freq, req.freq)

\* powers logged during the iterations
HistoryClause == Len(Obs.conv) > 0 => Close(Obs.conv[Len(Obs.conv)], Obs.S_total, SScale, Trace[id].tolc)

---------------------------------------------------------------------------
(* verdict *)

Failing(name, holds) == IF holds THEN <<>> ELSE <<name>>

Solved ==
         Failing("circuit: converged", Obs.converged \/ Loose)
      \o Failing("circuit: electric flows", FlowClause(fld.F, net.e, fld.J, ITerm))
      \o Failing("circuit: divergence", DivClause(fld.S, fld.SD, net.e, ITerm))
      \o Failing("circuit: current balance", BalanceClause)
      \o Failing("circuit: source equations", SourceClause)
      \o (IF Static THEN Failing("circuit: resistive drop", StaticClause) ELSE Failing("integral: induced voltage", KvlClause))
      \o Failing("circuit: terminals", TermClause)
      \o Failing("magnetic: flux flows", FlowClause(fld.H, net.m, fld.B, XFloor))
      \o Failing("magnetic: divergence", DivClause(fld.Q, fld.QD, net.m, DMax(XFloor, MaxAbs(fld.X))))
      \o Failing("integral: charge potential", PotClause)
      \o Failing("integral: magnetic circuit", MagClause)
      \o Failing("power: source powers", TermSClause)
      \o Failing("power: source total", TermTags => TotalSClause)
      \o Failing("power: loss density", DensityClause(net.fe, LossE, net.e, fld.P) /\ DensityClause(net.fm, LossM, net.m, fld.PM))
      \o Failing("power: losses", LossClause)
      \o Failing("power: material losses", MaterialClause)
      \o Failing("power: energy", EnergyClause)
      \o Failing("power: totals", TotalClause)
      \o Failing("power: balance", BalancePower)
      \o Failing("power: passive", PassiveClause)
      \o Failing("power: history", HistoryClause)
      \o Failing("field: points", FieldClause)
      \o Failing("field: delivered positions", GridClause)

Outcome ==
    IF phase = "refused" THEN (IF Obs.ok THEN << "admission: accepted, must be refused: " \o why >> ELSE <<>>)
    ELSE IF phase = "unspecified" THEN <<>>
    ELSE IF ~Obs.ok THEN (IF Referenced THEN <<"admission: refused a valid problem">> ELSE <<>>)
    ELSE IF Brief THEN (IF Shaped THEN <<>> ELSE <<"admission: numbers of voxels, faces and sources">>)
    ELSE IF fld = NoFld THEN <<"admission: numbers of voxels, faces and sources">>
    ELSE IF ~Referenced THEN <<>>
    ELSE Solved

Judge ==
    /\ Final /\ verdict = ""
    /\ ~(ENABLED Observe)
    /\ verdict' = ToJson([id |-> id, end |-> phase, why |-> why, bad |-> Outcome])
    /\ PrintT("VERDICT " \o verdict')
    /\ UNCHANGED <<vars, id, fld>>

Next == Stage \/ Observe \/ Judge
=============================================================================
