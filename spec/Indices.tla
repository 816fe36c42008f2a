-------------------------------- MODULE Indices --------------------------------
(* Conversion of voxel indices (W06): linear indices to tensor indices and back, *)
(* with the numbering of the mesher (x fastest), or refusal of the request.      *)
(* request: n, kind ("linear": indices, "tensor": triples), idx                  *)
(* The indices of very large structures are decimals (beyond the integers of     *)
(* TLC): there, the relation between both numberings is specified.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Dec

VARIABLES req, phase, val   \* phase: kind of the current value, "refused" or "back"
xvars == <<req, phase, val>>

Total(n) == n[1]*n[2]*n[3]
ToTensor(n, i) == <<i % n[1], (i \div n[1]) % n[2], i \div (n[1]*n[2])>>
ToLinear(n, p) == p[1] + n[1]*(p[2] + n[2]*p[3])
InRange(n, kind, x) == IF kind = "linear" THEN x >= 0 /\ x < Total(n) ELSE \A a \in 1..3 : x[a] >= 0 /\ x[a] < n[a]

\* the same numbering, and the range, for indices given as decimals
LinearD(n, p) == DAdd(p[1], DMul(DInt(n[1]), DAdd(p[2], DMul(DInt(n[2]), p[3]))))
TotalD(n) == DMul(DInt(n[1]), DMul(DInt(n[2]), DInt(n[3])))
InsideD(n, p) == Len(p) = 3 /\ \A a \in 1..3 : DLe("0", p[a]) /\ DLt(p[a], DInt(n[a]))
InRangeD(n, kind, x) == IF kind = "linear" THEN DLe("0", x) /\ DLt(x, TotalD(n)) ELSE InsideD(n, x)
\* the linear index i and the position p are the same voxel
SameVoxel(n, i, p) == InsideD(n, p) /\ DEq(i, LinearD(n, p))

InitIdx(r) == req = r /\ phase = "given" /\ val = r.idx
Other(kind) == IF kind = "linear" THEN "tensor" ELSE "linear"
Conv(kind, s) == [k \in 1..Len(s) |-> IF kind = "linear" THEN ToTensor(req.n, s[k]) ELSE ToLinear(req.n, s[k])]
\* conversion to the other kind
Forward ==
    /\ phase = "given"
    /\ IF \A k \in 1..Len(val) : InRange(req.n, req.kind, val[k])
       THEN phase' = "converted" /\ val' = Conv(req.kind, val)
       ELSE phase' = "refused" /\ UNCHANGED val
    /\ UNCHANGED req
\* and back
Backward == phase = "converted" /\ phase' = "back" /\ val' = Conv(Other(req.kind), val) /\ UNCHANGED req
IdxInv == /\ phase = "back" => val = req.idx
          /\ phase = "converted" => \A k \in 1..Len(val) : InRange(req.n, Other(req.kind), val[k])
          /\ phase = "converted" => \A i, j \in 1..Len(val) : val[i] = val[j] => req.idx[i] = req.idx[j]
=============================================================================
