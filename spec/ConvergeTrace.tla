----------------------------- MODULE ConvergeTrace -----------------------------
(* Judgement of recorded iterations (S03).                                       *)
(*  - "steps": an equation system of Converge.tla handed to the equation solver; *)
(*    the machine is run on the same system, the observations have to agree.     *)
(*  - "run": a problem solved through the public entry point; the reported       *)
(*    status, counts and histories have to agree with each other, with the       *)
(*    delivered solution, and with the criteria of the options.                  *)
EXTENDS Converge, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, verdict
Rec == Trace[id]
Obs == Rec.obs
Tol == "1e-7"

\* the power of a "run" is recorded, the machine is not used there
Init == \E k \in 1..Len(Trace) : /\ id = k /\ verdict = ""
                                 /\ IF Trace[k].kind = "steps" THEN InitWith(Trace[k].req)
                                    ELSE /\ req = Trace[k].req /\ phase = "done" /\ sol = <<>> /\ n = 0 /\ hist = Trace[k].obs.hist
                                         /\ ok = TRUE /\ why = "" /\ tie = FALSE /\ rep = NoRep

Failing(name, holds) == IF holds THEN <<>> ELSE <<name>>
Near(x, y, scale) == DNear(x, y, DAdd(DMul(Tol, scale), "1e-12"))
NearSeq(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : Near(x[k], y[k], DMax(DAbs(x[k]), DMaxAbs(y)))
NearC(x, y) == Near(x[1], y[1], CAbs(y)) /\ Near(x[2], y[2], CAbs(y))
Flag(x) == IF x THEN "yes" ELSE "no"

---------------------------------------------------------------------------
Steps ==
    IF tie THEN <<>>
    ELSE IF ~Obs.ok THEN <<"iteration: refused">>
    ELSE Failing("iteration: number", Obs.n = n)
      \o Failing("iteration: history", Len(Obs.hist) = n /\ \A k \in 1..n : NearC(Obs.hist[k], hist[k]))
      \o Failing("iteration: delivered solution", NearSeq(Obs.sol, sol))
      \o Failing("iteration: initial power", NearC(Obs.init, rep.init))
      \o Failing("iteration: final power", NearC(Obs.final, rep.final))
      \o Failing("status: residuum", Near(Obs.res, rep.res, Norm(Rhs)))
      \o Failing("status: residuum vector", Near(Norm(Obs.vec), rep.res, Norm(Rhs)))
      \o Failing("status: threshold", Near(Obs.thr, rep.thr, rep.thr))
      \o Failing("status: converged", Obs.status = (rep.status = "yes"))

---------------------------------------------------------------------------
(* solutions of the public entry point; one record for all the sweeps of a run *)

Seq1(h, k) == SubSeq(h, 1, k)
\* margin for decisions on recorded values
Clearly(x, y) == DLt(x, DMul("0.999999", y))
Sum2(x) == DSqrt(DSum([k \in 1..Len(x) |-> CAbs2(x[k])]))
Ended(o) ==
    LET h == o.hist  m == Len(h)  seg == req.coupling = "segregated"
        RECURSIVE First(_)
        First(k) == IF k > m THEN 0 ELSE IF PowerStop(Seq1(h, k)) THEN k ELSE First(k + 1)
        \* a decision which is not clear
        unclear == req.stop.on /\ \E k \in MinIter..m : Tied(Spread(Seq1(h, k)), PowerThr(Seq1(h, k)))
    IN  [first |-> First(1), unclear |-> unclear, max |-> IF seg THEN req.seg.nmax ELSE req.direct.nouter]
Sweep(o) ==
    LET e == Ended(o)
        m == Len(o.hist)
        power == req.stop.on /\ e.first = m /\ m > 0
        resid == DLt(o.res, o.thr)
        seg == req.coupling = "segregated"
        rhs == Sum2(o.rhs)
        segthr == Threshold2(req.seg.rel, req.seg.abs, rhs)
        dirthr == Threshold2(req.direct.rel, req.direct.abs, rhs)
        slack == DAdd(DMul("1e-9", rhs), "0")
        \* the status of the solver, if it can be told from the outside
        good == power \/ (IF seg THEN m < e.max ELSE req.direct.gmres /\ DLt(DAdd(o.res, slack), DMul("0.999", dirthr)))
        bad == ~power /\ DLt(DMul("1.001", IF seg THEN segthr ELSE dirthr), DSub(o.res, slack))
    IN     Failing("iteration: number", o.n = m)
        \o Failing("iteration: stop", e.unclear \/ e.first \in {0, m})
        \o Failing("iteration: maximum", m <= e.max)
        \o Failing("iteration: minimum", seg /\ ~power => m >= req.seg.nmin \/ m >= e.max)
        \o Failing("iteration: stop on residuum", (seg /\ ~power /\ m < e.max /\ m > 0 /\ ~e.unclear) => DLe(o.res, DAdd(DMul("1.001", segthr), slack)))
        \o Failing("iteration: final power", NearC(o.final, o.total))
        \o Failing("iteration: last power", (m > 0 /\ (seg \/ power \/ req.direct.gmres)) => NearC(o.hist[m], o.final))
        \o Failing("iteration: initial power", ~o.guess => NearC(o.init, <<"0", "0">>))
        \o Failing("status: residuum", Near(o.res, Sum2(o.vec), DMax(o.res, DMul("1e-3", rhs))))
        \o Failing("status: threshold", Near(o.thr, Threshold2(req.tol.rel, req.tol.abs, rhs), o.thr))
        \o Failing("status: residuum criterion", (~req.tol.nores /\ ~resid) => ~o.solver)
        \o Failing("status: without criteria", (req.tol.nores /\ req.tol.nostatus) => o.solver)
        \o Failing("status: residuum only", (req.tol.nostatus /\ ~req.tol.nores) => (o.solver = resid))
        \o Failing("status: solver achieved", (good /\ ~e.unclear /\ (req.tol.nores \/ resid)) => o.solver)
        \o Failing("status: solver failed", (bad /\ ~e.unclear /\ ~req.tol.nostatus) => ~o.solver)
        \o Failing("status: condition", IF ~o.check THEN o.cond ELSE
               o.cond = (DLt(o.conde, req.cond.e) /\ DLt(o.condm, req.cond.m)))
        \o Failing("status: check", o.check = req.cond.check)
        \o Failing("status: converged", o.converged = (o.solver /\ o.cond))
        \o Failing("status: reported", o.solver = o.solver2 /\ o.cond = o.cond2)
        \o Failing("status: unknowns", o.ndof = o.nface + o.nvox + o.nsrc)

Runs == IF ~Obs.ok THEN <<"iteration: refused">>
        ELSE FlattenSeq([k \in 1..Len(Obs.sweeps) |-> Sweep(Obs.sweeps[k])])
          \o Failing("status: all the sweeps", Obs.status = \A k \in 1..Len(Obs.sweeps) : Obs.sweeps[k].converged)

Run == Step /\ UNCHANGED <<id, verdict>>
Judge ==
    /\ Final /\ verdict = ""
    /\ LET bad == IF Rec.kind = "steps" THEN Steps ELSE Runs
       IN  verdict' = ToJson([id |-> id, end |-> IF tie THEN "tie" ELSE Rec.kind, why |-> why, bad |-> SetToSeq(ToSet(bad))])
    /\ PrintT("VERDICT " \o verdict')
    /\ UNCHANGED <<vars, id>>
Next == Run \/ Judge
=============================================================================
