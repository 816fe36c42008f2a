------------------------------- MODULE Converge -------------------------------
(* Iterations of the equation solver, stop criteria, and reported status (S03).  *)
(*                                                                               *)
(* The equation system has an electric block (two unknowns) and a magnetic block *)
(* (one unknown), coupled in both directions.  The inner solver is the restarted *)
(* minimal residual method with a single direction, which is simple enough to be *)
(* written down: all the iterates, residuals and decisions are determined.       *)
EXTENDS Dec, Integers, Sequences, FiniteSets, TLC

VARIABLES
    req,     \* problem and options
    phase,   \* "iterate", "electric", "magnetic", "assess", "report", "done"
    sol,     \* iterate (three decimals)
    n,       \* number of iterations
    hist,    \* powers of the iterations
    ok,      \* status of the inner solvers and of the residuum, in the last iteration
    why,     \* why the iterations have ended
    tie,     \* a decision was too close to its threshold to be predicted
    rep      \* reported status

vars == <<req, phase, sol, n, hist, ok, why, tie, rep>>

---------------------------------------------------------------------------
(* linear algebra *)
Dot(x, y) == DSum([k \in 1..Len(x) |-> DMul(x[k], y[k])])
Norm(x) == DSqrt(Dot(x, x))
Vec(x, y) == [k \in 1..Len(x) |-> DSub(x[k], y[k])]
Mix(r, x, s, y) == [k \in 1..Len(x) |-> DAdd(DMul(r, x[k]), DMul(s, y[k]))]

Elec(x) == <<x[1], x[2]>>
Magn(x) == <<x[3]>>
SysE(x) == <<DMul(req.p, x[1]), DMul(req.q, x[2])>>
SysM(x) == <<DMul(req.s, x[1])>>
CplE(y) == <<DMul(req.a, y[1]), DMul(req.a, y[1])>>       \* magnetic -> electric
CplM(x) == <<DMul(req.b, DAdd(x[1], x[2]))>>              \* electric -> magnetic
SysAll(x) == Mix("1", SysE(Elec(x)), "1", CplE(Magn(x))) \o Mix("1", SysM(Magn(x)), "1", CplM(Elec(x)))
Rhs == req.rhs
RhsE == Elec(Rhs)
RhsM == Magn(Rhs)
Residual(x) == Vec(Rhs, SysAll(x))
Threshold2(rel, abs, nrm) == DMax(DMul(rel, nrm), abs)
Threshold(rel, abs, x) == Threshold2(rel, abs, Norm(x))

\* a decision x <= y is only predicted if it is clear
Tied(x, y) == DNear(x, y, DAdd(DMul("1e-7", DMax(DAbs(x), DAbs(y))), "1e-13"))

---------------------------------------------------------------------------
(* one direction of minimal residual *)
Direction(A(_), x, b) ==
    LET r == Vec(b, A(x))
        w == A(r)
        alpha == DDiv(Dot(w, r), Dot(w, w))
    IN  Mix("1", x, alpha, r)

\* inner solver of the segregated coupling: at most m directions; <<solution, status, tie>>
RECURSIVE Directions(_, _, _, _, _)
Directions(A(_), x, b, thr, m) ==
    LET y == Direction(A, x, b)
        r == Norm(Vec(b, A(y)))
    IN  IF Tied(r, thr) THEN <<y, FALSE, TRUE>>
        ELSE IF DLe(r, thr) THEN <<y, TRUE, FALSE>>
        ELSE IF m = 1 THEN <<y, FALSE, FALSE>>
        ELSE Directions(A, y, b, thr, m - 1)
Inner(A(_), x, b, o) ==
    LET thr == Threshold(o.rel, o.abs, b)
        r == Norm(Vec(b, A(x)))
    IN  IF DEq(Norm(b), "0") THEN <<b, TRUE, FALSE>>
        ELSE IF DNear(Norm(b), "0", "1e-13") \/ Tied(r, thr) THEN <<x, FALSE, TRUE>>
        ELSE IF DLt(r, thr) THEN <<x, TRUE, FALSE>>
        ELSE Directions(A, x, b, thr, o.nouter)

---------------------------------------------------------------------------
(* power criterion *)
Power(x, k) ==
    IF req.script # <<>> THEN (IF k + 1 <= Len(req.script) THEN req.script[k+1] ELSE req.script[Len(req.script)])
    ELSE <<DAdd(x[1], x[2]), x[3]>>

Window == req.stop.ncmp
MinIter == LET m == {2, req.stop.ncmp + 1, req.stop.nmin} IN CHOOSE k \in m : \A j \in m : j <= k
Last(h) == h[Len(h)]
Spread(h) == DMaxAbs([k \in 1..Window |-> CAbs(CSub(Last(h), h[Len(h) - k]))])
PowerThr(h) == DMax(DMul(req.stop.rel, CAbs(Last(h))), req.stop.abs)
PowerStop(h) == req.stop.on /\ Len(h) >= MinIter /\ DLe(Spread(h), PowerThr(h))
PowerTie(h) == req.stop.on /\ Len(h) >= MinIter
               /\ (IF req.script # <<>> THEN FALSE ELSE Tied(Spread(h), PowerThr(h)))

---------------------------------------------------------------------------
NoRep == [status |-> "?"]
InitWith(r) ==
    /\ req = r /\ phase = "iterate" /\ sol = r.guess
    /\ n = 0 /\ hist = <<>> /\ ok = TRUE /\ why = "" /\ tie = FALSE /\ rep = NoRep

\* the direct coupling: the complete system, one direction for each iteration
DirectThr == Threshold(req.direct.rel, req.direct.abs, Rhs)
DirectStart ==
    /\ phase = "iterate" /\ req.coupling = "direct" /\ n = 0
    /\ \/ /\ DEq(Norm(Rhs), "0")
          /\ sol' = Rhs /\ why' = "trivial" /\ ok' = TRUE /\ tie' = tie /\ phase' = "report"
       \/ /\ ~DEq(Norm(Rhs), "0")
          /\ DLt(Norm(Residual(sol)), DirectThr)
          /\ sol' = sol /\ why' = "guess" /\ ok' = TRUE
          /\ tie' = Tied(Norm(Residual(sol)), DirectThr) /\ phase' = "report"
    /\ UNCHANGED <<req, n, hist, rep>>

Direct ==
    /\ phase = "iterate" /\ req.coupling = "direct"
    /\ n = 0 => ~DEq(Norm(Rhs), "0") /\ ~DLt(Norm(Residual(sol)), DirectThr)
    /\ LET x == Direction(SysAll, sol, Rhs)
           h == Append(hist, Power(x, n + 1))
           r == Norm(Residual(x))
       IN  /\ sol' = x /\ n' = n + 1 /\ hist' = h
           /\ tie' = (tie \/ (n = 0 /\ Tied(Norm(Residual(sol)), DirectThr)) \/ PowerTie(h) \/ Tied(r, DirectThr))
           /\ IF PowerStop(h) THEN phase' = "report" /\ why' = "power" /\ ok' = TRUE
              ELSE IF DLe(r, DirectThr) THEN phase' = "report" /\ why' = "residuum" /\ ok' = TRUE
              ELSE IF n' >= req.direct.nouter THEN phase' = "report" /\ why' = "maximum" /\ ok' = FALSE
              ELSE phase' = "iterate" /\ UNCHANGED <<why, ok>>
    /\ UNCHANGED <<req, rep>>

\* the segregated coupling: electric, magnetic, assessment
Relax(w, x, y) == Mix(DSub("1", w), x, w, y)
Electric ==
    /\ phase = "iterate" /\ req.coupling = "segregated"
    /\ LET b == Vec(RhsE, CplE(Magn(sol)))
           out == Inner(SysE, Elec(sol), b, req.inner)
       IN  /\ sol' = Relax(req.relax.e, Elec(sol), out[1]) \o Magn(sol)
           /\ ok' = out[2] /\ tie' = (tie \/ out[3])
    /\ phase' = "magnetic"
    /\ UNCHANGED <<req, n, hist, why, rep>>
Magnetic ==
    /\ phase = "magnetic"
    /\ LET b == Vec(RhsM, CplM(Elec(sol)))
           out == Inner(SysM, Magn(sol), b, req.inner)
       IN  /\ sol' = Elec(sol) \o Relax(req.relax.m, Magn(sol), out[1])
           /\ ok' = (ok /\ out[2]) /\ tie' = (tie \/ out[3])
    /\ phase' = "assess"
    /\ UNCHANGED <<req, n, hist, why, rep>>
Assess ==
    /\ phase = "assess"
    /\ LET h == Append(hist, Power(sol, n + 1))
           thr == Threshold(req.seg.rel, req.seg.abs, Rhs)
           r == Norm(Residual(sol))
           good == ok /\ DLe(r, thr)
       IN  /\ n' = n + 1 /\ hist' = h
           /\ tie' = (tie \/ PowerTie(h) \/ (ok /\ Tied(r, thr)))
           /\ IF PowerStop(h) THEN phase' = "report" /\ why' = "power" /\ ok' = TRUE
              ELSE /\ ok' = good
                   /\ IF good /\ n' >= req.seg.nmin THEN phase' = "report" /\ why' = "residuum"
                      ELSE IF n' >= req.seg.nmax THEN phase' = "report" /\ why' = "maximum"
                      ELSE phase' = "iterate" /\ why' = ""
    /\ UNCHANGED <<req, sol, rep>>

\* final assessment of the delivered solution
Report ==
    /\ phase = "report"
    /\ LET r == Norm(Residual(sol))
           thr == Threshold(req.tol.rel, req.tol.abs, Rhs)
       IN  /\ rep' = [status |-> IF (req.tol.nostatus \/ ok) /\ (req.tol.nores \/ DLt(r, thr)) THEN "yes" ELSE "no",
                      res |-> r, thr |-> thr, init |-> Power(req.guess, 0), final |-> Power(sol, n + 1)]
           /\ tie' = (tie \/ (~req.tol.nores /\ Tied(r, thr)))
    /\ phase' = "done"
    /\ UNCHANGED <<req, sol, n, hist, ok, why>>

Step == DirectStart \/ Direct \/ Electric \/ Magnetic \/ Assess \/ Report
Final == phase = "done"

---------------------------------------------------------------------------
(* what the decisions amount to, without reference to the steps *)

\* the power criterion holds for the first k iterations of the history
Holds(k) == k >= MinIter /\ \A j \in 1..Window :
    DLe(CAbs(CSub(hist[k], hist[k-j])), DMax(DMul(req.stop.rel, CAbs(hist[k])), req.stop.abs))

StopInv == phase \in {"report", "done"} =>
    \* the power criterion: at the first iteration fulfilling it, if enabled
    /\ (why = "power") = (req.stop.on /\ n >= 1 /\ Holds(n))
    /\ req.stop.on => \A k \in 1..(n-1) : ~Holds(k)
    /\ n = Len(hist)
    /\ req.coupling = "segregated" => n >= 1 /\ n <= (IF req.seg.nmin > req.seg.nmax THEN req.seg.nmin ELSE req.seg.nmax)
    /\ req.coupling = "direct" => n <= req.direct.nouter
    /\ (req.coupling = "segregated" /\ why = "residuum") => n >= req.seg.nmin
    /\ why = "maximum" => n = (IF req.coupling = "direct" THEN req.direct.nouter ELSE req.seg.nmax)
    /\ why = "residuum" => DLe(Norm(Residual(sol)),
          IF req.coupling = "direct" THEN DirectThr ELSE Threshold(req.seg.rel, req.seg.abs, Rhs))

\* a sweep is not reported as converged for nothing
StatusInv == phase = "done" =>
    /\ rep.status = "yes" => req.tol.nores \/ DLt(Norm(Residual(sol)), Threshold(req.tol.rel, req.tol.abs, Rhs))
    /\ rep.status = "yes" => req.tol.nostatus \/ why # "maximum" \/ (req.coupling = "segregated" /\ ok)
    /\ (req.tol.nores /\ req.tol.nostatus) => rep.status = "yes"
    /\ why \in {"residuum", "power", "guess", "trivial"} => ok
=============================================================================
