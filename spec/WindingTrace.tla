------------------------------ MODULE WindingTrace ------------------------------
(* Observation: refused (bool), terminal (I, V per column, after the symmetries), *)
(* matrix (Z, R, L, kR, kL, Q), freq, n_solution, n_winding, kept.                *)
EXTENDS Winding, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, bad, verdict
Obs == Trace[id].obs
Init == \E k \in 1..Len(Trace) : id = k /\ bad = <<>> /\ verdict = "" /\ InitW(Trace[k].req)
Failing(name, holds) == IF holds THEN <<>> ELSE <<name>>

CloseSeq(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : CNear(a[k], b[k], DMul("1e-10", DAdd(DMax(VNorm(a), VNorm(b)), "1e-300")))
\* the columns may be in any order, and repeated columns may be given once
Within(i1, v1, i2, v2) == \A k \in 1..Len(i1) : \E m \in 1..Len(i2) : CloseSeq(i1[k], i2[m]) /\ CloseSeq(v1[k], v2[m])
SameColumns == /\ Len(Obs.cur) = Len(Obs.vol)
               /\ Within(cur, vol, Obs.cur, Obs.vol) /\ Within(Obs.cur, Obs.vol, cur, vol)

n == W(req)
Z == Obs.Z
Square(m) == Len(m) = n /\ \A i \in 1..n : Len(m[i]) = n
Freq == req.sweeps[req.used[1]].freq
TwoPi == DMul("8", DAtan("1"))
Omega == DMul(TwoPi, Freq)
RealPart(i, j) == DClose(Obs.R[i][j], Z[i][j][1], "1e-9", "1e-300")
\* the values of the equivalent circuit where these are defined
Ind(i, j) == DLt("0", Omega) => DClose(DMul(Omega, Obs.L[i][j]), Z[i][j][2], "1e-9", DMul("1e-6", CAbs(Z[i][j])))
Qual(i, j) == DLt("0", Omega) /\ DLt("0", DAbs(Z[i][j][1])) =>
                  DClose(DMul(Obs.Q[i][j], Z[i][j][1]), Z[i][j][2], "1e-9", DMul("1e-6", CAbs(Z[i][j])))
Coup(k, m, p, i, j) == DLt("0", m[i][i][p]) /\ DLt("0", m[j][j][p]) /\ (p = 2 => DLt("0", Omega)) =>
                  DClose(DMul(k[i][j], DSqrt(DMul(m[i][i][p], m[j][j][p]))), m[i][j][p], "1e-8",
                         DMul("1e-4", DSqrt(DMul(m[i][i][p], m[j][j][p]))))

\* least squares: the residual is orthogonal to the equations of each coefficient
Residual(k) == LET v == MatVec(Z, cur[k]) IN [w \in 1..n |-> CSub(v[w], vol[k][w])]
Gradient(i, j) == CSum([k \in 1..Len(cur) |->
                      LET r == Residual(k)
                      IN  IF i = j THEN CMul(CConj(cur[k][i]), r[i])
                          ELSE CAdd(CMul(CConj(cur[k][j]), r[i]), CMul(CConj(cur[k][i]), r[j]))])
Big == DMul(DMaxAbs([k \in 1..Len(cur) |-> VNorm(cur[k])]), DMaxAbs([k \in 1..Len(vol) |-> VNorm(vol[k])]))
ZBig == DMaxAbs([k \in 1..(n*n) |-> CAbs(Z[((k-1) \div n) + 1][((k-1) % n) + 1])])

Matrix ==
    IF ~(Square(Z) /\ Square(Obs.R) /\ Square(Obs.L) /\ Square(Obs.Q) /\ Square(Obs.kR) /\ Square(Obs.kL)) THEN <<"shape of the matrix">>
    ELSE Failing("symmetric matrix", \A i, j \in 1..n : CNear(Z[i][j], Z[j][i], DMul("1e-9", ZBig)))
      \o Failing("least squares", \A i \in 1..n : \A j \in 1..i : DLe(CAbs(Gradient(i, j)), DMul(DMul("1e-8", DInt(Len(cur))), Big)))
      \o Failing("matrix of the generator", req.z = <<>> \/ \A i, j \in 1..n : CNear(Z[i][j], req.z[i][j], DMul(req.rel, ZBig)))
      \o Failing("voltages of the sweeps", req.z = <<>> \/ \A k \in 1..Len(cur) : Maps(Z, cur[k], vol[k], req.rel))
      \o Failing("voltages of the further sweeps", \A k \in 1..Len(req.extra) :
             Maps(Z, WindCur(req, req.sweeps[req.extra[k]]), WindVol(req, req.sweeps[req.extra[k]]), req.rel))
      \o Failing("resistance", \A i, j \in 1..n : RealPart(i, j))
      \o Failing("inductance", \A i, j \in 1..n : Ind(i, j))
      \o Failing("quality factor", \A i, j \in 1..n : Qual(i, j))
      \o Failing("resistive coupling", \A i, j \in 1..n : Coup(Obs.kR, Z, 1, i, j))
      \o Failing("inductive coupling", \A i, j \in 1..n : Coup(Obs.kL, Z, 2, i, j))
      \o Failing("size of the component", Obs.n_winding = n)
      \o Failing("frequency", DClose(Obs.freq, Freq, "1e-9", "1e-300"))

Move == (Extract \/ Expand \/ Solve) /\ UNCHANGED <<id, bad, verdict>>
Terminal == IF phase # "matrix" THEN <<>> ELSE Failing("terminal quantities", SameColumns)
Judge == /\ phase \in {"matrix", "refused"} /\ verdict = ""
         /\ \E b \in { bad \o (IF phase = "refused" THEN Failing("accepted, must be refused", Obs.refused)
                               ELSE IF Obs.refused THEN <<"refused a valid solution">> ELSE Terminal \o Matrix)
                            \o Failing("input modified", Obs.kept) } :
               verdict' = ToJson([id |-> id, end |-> phase, why |-> "", bad |-> b])
         /\ PrintT("VERDICT " \o verdict') /\ UNCHANGED <<wvars, id, bad>>
Next == Move \/ Judge
=============================================================================
