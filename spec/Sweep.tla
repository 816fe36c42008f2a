--------------------------------- MODULE Sweep ---------------------------------
(* Scheduling of the sweeps of a problem (S02): each sweep is computed once, after *)
(* the sweep which gives its initial guess, and receives the solution of it.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
    req,     \* sweeps: sequence of [tag, init] (init "" for none), fails: tags of the sweeps which fail
    phase,   \* "check", "run", "refused", "failed", "done"
    st,      \* state of the sweeps: "waiting", "running", "done", "failed"
    guess    \* what the sweeps have received ("?" if not started)

vars == <<req, phase, st, guess>>

Sweeps == 1..Len(req.sweeps)
Tag(k) == req.sweeps[k].tag
Dep(k) == req.sweeps[k].init
Named(t) == { k \in Sweeps : Tag(k) = t }

\* sweeps which can be computed after at most i others
RECURSIVE Solvable(_)
Solvable(i) == IF i = 0 THEN { k \in Sweeps : Dep(k) = "" }
               ELSE LET s == Solvable(i-1) IN s \cup { k \in Sweeps : \E j \in s : Tag(j) = Dep(k) }
AllSolvable == Solvable(Len(req.sweeps)) = Sweeps

InitWith(r) == /\ req = r /\ phase = "check"
               /\ st = [k \in 1..Len(r.sweeps) |-> "waiting"] /\ guess = [k \in 1..Len(r.sweeps) |-> "?"]

Check ==
    /\ phase = "check"
    /\ phase' = IF AllSolvable THEN (IF Sweeps = {} THEN "done" ELSE "run") ELSE "refused"
    /\ UNCHANGED <<req, st, guess>>

CanStart(k) == phase = "run" /\ st[k] = "waiting" /\ (Dep(k) = "" \/ \E j \in Named(Dep(k)) : st[j] = "done")
Start(k) ==
    /\ CanStart(k)
    /\ st' = [st EXCEPT ![k] = "running"] /\ guess' = [guess EXCEPT ![k] = Dep(k)]
    /\ UNCHANGED <<req, phase>>
CanFinish(k) == phase = "run" /\ st[k] = "running" /\ Tag(k) \notin req.fails
Finish(k) ==
    /\ CanFinish(k)
    /\ st' = [st EXCEPT ![k] = "done"]
    /\ phase' = IF \A j \in Sweeps : st'[j] = "done" THEN "done" ELSE "run"
    /\ UNCHANGED <<req, guess>>
CanFail(k) == phase \in {"run", "failed"} /\ st[k] = "running" /\ Tag(k) \in req.fails
Fail(k) ==
    /\ CanFail(k)
    /\ st' = [st EXCEPT ![k] = "failed"] /\ phase' = "failed"
    /\ UNCHANGED <<req, guess>>

Next1 == Check \/ \E k \in Sweeps : Start(k) \/ Finish(k) \/ Fail(k)
Final == phase \in {"refused", "failed", "done"}

---------------------------------------------------------------------------
\* acyclic and closed: no sweep is reached from itself, and all the names are known
RECURSIVE Back(_, _)
Back(k, i) == IF i = 0 THEN {k} ELSE {k} \cup UNION { Back(j, i-1) : j \in Named(Dep(k)) }
Closed == \A k \in Sweeps : Dep(k) # "" => Named(Dep(k)) # {}
Acyclic == \A k \in Sweeps : \A j \in Named(Dep(k)) : k \notin Back(j, Len(req.sweeps))

OrderInv == \A k \in Sweeps : st[k] # "waiting" =>
    /\ guess[k] = Dep(k)
    /\ Dep(k) # "" => \E j \in Named(Dep(k)) : st[j] = "done"
RefuseInv == /\ phase = "refused" => (~Closed \/ ~Acyclic) /\ \A k \in Sweeps : st[k] = "waiting"
             /\ phase \notin {"refused", "check"} => Closed /\ Acyclic
DoneInv == phase = "done" => \A k \in Sweeps : st[k] = "done"
FailInv == phase = "done" => \A k \in Sweeps : Tag(k) \notin req.fails
Inv == OrderInv /\ RefuseInv /\ DoneInv /\ FailInv
Progress == <>Final
=============================================================================
