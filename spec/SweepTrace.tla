------------------------------- MODULE SweepTrace -------------------------------
(* Judgement of recorded schedules and results of sweeps (S02).                    *)
(*  - "events": starts and ends of the computations handed to the scheduler: they  *)
(*    have to be a behaviour of Sweep.tla                                          *)
(*  - "order": positions of the starts and of the ends in a large schedule          *)
(*  - "run": results of a problem with sweeps solved in different ways             *)
EXTENDS Sweep, Dec, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, pos, bad, verdict
Rec == Trace[id]
Obs == Rec.obs
Events == Obs.events
tvars == <<vars, id, pos, bad, verdict>>

FixReq(r) == [sweeps |-> r.sweeps, fails |-> ToSet(r.fails)]
Init == \E k \in 1..Len(Trace) : /\ id = k /\ pos = 1 /\ bad = <<>> /\ verdict = ""
                                 /\ IF Trace[k].kind = "order"
                                    THEN req = FixReq(Trace[k].req) /\ phase = "run" /\ st = <<>> /\ guess = <<>>
                                    ELSE InitWith(FixReq(Trace[k].req))

Steps == Rec.kind = "events"
DoCheck == Check /\ UNCHANGED <<id, pos, bad, verdict>>

Ev == Events[pos]
Idx == { k \in Sweeps : Tag(k) = Ev.tag }
Follow ==
    /\ Steps /\ phase # "check" /\ pos <= Len(Events) /\ bad = <<>>
    /\ pos' = pos + 1 /\ UNCHANGED <<id, verdict>>
    /\ IF Idx = {} THEN bad' = <<"schedule: unknown sweep">> /\ UNCHANGED vars
       ELSE LET k == CHOOSE j \in Idx : TRUE
                wrong == (IF Ev.kind = "start" /\ Ev.guess # Dep(k) THEN <<"schedule: initial guess">> ELSE <<>>)
                      \o (IF Ev.param # Tag(k) THEN <<"schedule: parameters">> ELSE <<>>)
            IN  IF Ev.kind = "start"
                THEN IF CanStart(k) THEN Start(k) /\ bad' = wrong
                     ELSE /\ bad' = << CASE phase = "refused" -> "schedule: computed although refused"
                                         [] phase = "failed" -> "schedule: computed after a failure"
                                         [] st[k] # "waiting" -> "schedule: computed twice"
                                         [] OTHER -> "schedule: computed before its initial guess" >> \o wrong
                          /\ UNCHANGED vars
                ELSE IF Ev.kind = "end" /\ CanFinish(k) THEN Finish(k) /\ bad' = wrong
                ELSE IF Ev.kind = "fail" /\ CanFail(k) THEN Fail(k) /\ bad' = wrong
                ELSE bad' = <<"schedule: unexpected end">> /\ UNCHANGED vars

Outcome ==
    IF bad # <<>> THEN bad
    ELSE IF phase = "refused" THEN (IF Obs.ok THEN <<"dependencies: accepted, must be refused">> ELSE <<>>)
    ELSE IF phase = "failed" THEN (IF Obs.ok THEN <<"schedule: failure not reported">> ELSE <<>>)
    ELSE IF ~Obs.ok THEN <<"dependencies: refused">>
    ELSE IF phase # "done" THEN <<"schedule: sweep not computed">>
    ELSE IF ToSet(Obs.names) # { Tag(k) : k \in Sweeps } \/ Len(Obs.names) # Len(req.sweeps) THEN <<"results: names">>
    ELSE IF \E k \in 1..Len(Obs.names) : Obs.values[k] # Obs.names[k] THEN <<"results: assigned to another sweep">>
    ELSE <<>>

---------------------------------------------------------------------------
Failing(name, holds) == IF holds THEN <<>> ELSE <<name>>
NearC(x, y, sc) == DLe(CAbs(CSub(x, y)), DAdd(DMul(Rec.tol, sc), "1e-30"))
Mag(s) == DMaxAbs([k \in 1..Len(s) |-> CAbs(s[k])])
\* scale of the quantities of a sweep: currents below 1e-3 of what the potentials drive through a voxel are rounding errors
PotScale(r) == Mag(r.pot)
CurScale(r) == DMax(Mag(r.curr), DMul(DMul("1e-3", Rec.cond), PotScale(r)))
PowScale(r) == DMax(Mag(r.power), DMul(CurScale(r), PotScale(r)))
SameAll(s, t, sc) == Len(s) = Len(t) /\ \A j \in 1..Len(s) : NearC(s[j], t[j], sc)
\* ways of solving the same sweeps; the first one computes each sweep on its own
Ways == Obs.ways
By(w, t) == LET s == w.sweeps IN s[CHOOSE k \in 1..Len(s) : s[k].tag = t]
Fact(s) == IF s.freq = "0.0" THEN "1" ELSE "0.5"
WayClause(w) ==
    LET names == { w.sweeps[k].tag : k \in 1..Len(w.sweeps) }
    IN  IF ~w.ok THEN <<"dependencies: refused">>
        ELSE IF names # { Tag(k) : k \in Sweeps } \/ Len(w.sweeps) # Len(req.sweeps) THEN <<"results: names">>
        ELSE FlattenSeq([k \in Sweeps |->
            LET o == By(w, Tag(k))
                r == Rec.alone[k]
            IN     Failing("results: converged", o.converged)
                \o Failing("results: frequency", DEq(o.freq, r.freq))
                \o Failing("results: values of the sweep",
                       /\ SameAll(o.power, r.power, PowScale(r)) /\ SameAll(o.curr, r.curr, CurScale(r))
                       /\ SameAll(o.pot, r.pot, PotScale(r)))
                \o Failing("schedule: initial guess",
                       IF Dep(k) = "" THEN NearC(o.init, CZero, "0")
                       ELSE LET d == By(w, Dep(k))
                            IN  NearC(CScale(Fact(d), o.init), CScale(Fact(o), d.final), DMax(PowScale(d), CAbs(d.final))))])
Runs ==
    IF phase = "refused" THEN FlattenSeq([j \in 1..Len(Ways) |-> IF Ways[j].ok THEN <<"dependencies: accepted, must be refused">> ELSE <<>>])
    ELSE FlattenSeq([j \in 1..Len(Ways) |-> WayClause(Ways[j])])

\* large schedules
Posn == Obs.pos
Names == DOMAIN Posn
Order ==
    IF ~Obs.ok THEN <<"dependencies: refused">>
    ELSE IF Names # { Tag(k) : k \in Sweeps } THEN <<"schedule: unknown sweep">>
    ELSE IF \E t \in Names : Len(Posn[t].starts) > 1 \/ Len(Posn[t].ends) > 1 THEN <<"schedule: computed twice">>
    ELSE IF \E t \in Names : Len(Posn[t].starts) = 0 \/ Len(Posn[t].ends) = 0 THEN <<"schedule: sweep not computed">>
    ELSE    Failing("schedule: computed before its initial guess",
                \A k \in Sweeps : LET p == Posn[Tag(k)]
                                   IN  p.starts[1] < p.ends[1] /\ (Dep(k) # "" => Posn[Dep(k)].ends[1] < p.starts[1]))
         \o Failing("schedule: initial guess", \A k \in Sweeps : Posn[Tag(k)].guess[1] = Dep(k))
         \o Failing("schedule: parameters", \A k \in Sweeps : Posn[Tag(k)].param[1] = Tag(k))
         \o Failing("results: names", DOMAIN Obs.values = Names)
         \o Failing("results: assigned to another sweep", \A t \in DOMAIN Obs.values : Obs.values[t] = t)

Judge ==
    /\ verdict = "" /\ phase # "check"
    /\ Steps => (pos > Len(Events) \/ bad # <<>>)
    /\ LET out == IF Steps THEN Outcome ELSE IF Rec.kind = "order" THEN Order ELSE Runs
       IN  verdict' = ToJson([id |-> id, end |-> Rec.kind \o " " \o phase, why |-> "", bad |-> SetToSeq(ToSet(out))])
    /\ PrintT("VERDICT " \o verdict')
    /\ UNCHANGED <<vars, id, pos, bad>>

Next == DoCheck \/ Follow \/ Judge
=============================================================================
