-------------------------------- MODULE Winding --------------------------------
(* Impedance matrix of a component with windings (W05).                          *)
(* request: terminals (source and sink of each winding), sweeps (frequency, and  *)
(* the voltage and current of every source), used (indices of the sweeps that    *)
(* are used), stages (the winding permutations of each symmetry), extra (indices *)
(* of further sweeps), z (the matrix that generated the data, empty if unknown), *)
(* known (the symmetries hold: each permuted sweep is a sweep as well).          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Dec

VARIABLES req, phase, cur, vol
wvars == <<req, phase, cur, vol>>

W(r) == Len(r.terminals)
\* terminal quantities: a current enters at the source and leaves at the sink
WindVol(r, s) == [w \in 1..W(r) |-> CSub(s.source[r.terminals[w].src].V, s.source[r.terminals[w].sink].V)]
WindCur(r, s) == [w \in 1..W(r) |-> CScale("0.5", CSub(s.source[r.terminals[w].src].I, s.source[r.terminals[w].sink].I))]

OneFreq(r) == \A i, j \in 1..Len(r.used) : r.sweeps[r.used[i]].freq = r.sweeps[r.used[j]].freq

\* rank of the excitations (elimination with the largest pivot), components n, n-1, ... 1 of the vectors
RECURSIVE CRank(_, _)
CRank(n, c) ==
    IF n = 0 \/ c = <<>> THEN 0
    ELSE LET big == DMaxAbs([k \in 1..Len(c) |-> CAbs(c[k][n])])
             p == CHOOSE k \in 1..Len(c) : DLe(big, CAbs(c[k][n]))
         IN  IF DLe(big, "1e-12") THEN CRank(n-1, c)
             ELSE CHOOSE rank \in { 1 + CRank(n-1, rest) : rest \in {
                      [k \in 1..(Len(c)-1) |->
                         LET v == c[IF k < p THEN k ELSE k+1]
                             f == CDiv(v[n], c[p][n])
                         IN  [w \in 1..(n-1) |-> CSub(v[w], CMul(f, c[p][w]))]] } } : TRUE
\* the symmetric matrix is determined if and only if the currents span all the windings
Spans(n, c) == CRank(n, c) = n

InitW(r) == req = r /\ phase = "solution" /\ cur = <<>> /\ vol = <<>>
Extract ==
    /\ phase = "solution"
    /\ IF OneFreq(req)
       THEN /\ cur' = [k \in 1..Len(req.used) |-> WindCur(req, req.sweeps[req.used[k]])]
            /\ vol' = [k \in 1..Len(req.used) |-> WindVol(req, req.sweeps[req.used[k]])]
            /\ phase' = "terminal"
       ELSE phase' = "refused" /\ UNCHANGED <<cur, vol>>
    /\ UNCHANGED req
\* one symmetry: each permutation gives another set of sweeps (winding w takes the part of winding p[w])
Permuted(v, p) == [w \in 1..Len(v) |-> v[p[w]]]
Times(v, perms) == FlattenSeq([i \in 1..Len(perms) |-> [k \in 1..Len(v) |-> Permuted(v[k], perms[i])]])
RECURSIVE Stages(_, _)
Stages(v, stages) == IF stages = <<>> THEN v ELSE Stages(Times(v, Head(stages)), Tail(stages))
Expand ==
    /\ phase = "terminal"
    /\ cur' = Stages(cur, req.stages) /\ vol' = Stages(vol, req.stages)
    /\ phase' = "expanded" /\ UNCHANGED req
Solve ==
    /\ phase = "expanded"
    /\ phase' = IF Spans(W(req), cur) THEN "matrix" ELSE "refused"
    /\ UNCHANGED <<req, cur, vol>>

MatVec(z, i) == [w \in 1..Len(z) |-> CSum([k \in 1..Len(i) |-> CMul(z[w][k], i[k])])]
VNorm(v) == DMaxAbs([w \in 1..Len(v) |-> CAbs(v[w])])
Maps(z, i, v, rel) == \A w \in 1..Len(v) : CNear(MatVec(z, i)[w], v[w], DMul(rel, DAdd(VNorm(v), "1e-300")))

\* a generator maps the sweeps, and (if the component is symmetric) the permuted sweeps as well
WindInv ==
    /\ phase \in {"expanded", "matrix"} /\ req.z # <<>> =>
          \A k \in 1..Len(cur) : Maps(req.z, cur[k], vol[k], "1e-25")
    /\ phase # "refused" => Len(cur) = Len(vol)
=============================================================================
