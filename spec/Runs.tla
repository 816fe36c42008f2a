---------------------------------- MODULE Runs ----------------------------------
(* Runs of the steps in one process (S09): the caller holds objects with a        *)
(* content (geometries, problems, options) and the results returned so far. A run *)
(* creates one result, which is determined by the contents given to this run, and *)
(* changes nothing else, whatever has been run, edited or failed before.          *)
(*   content of an object: name of a document                                     *)
(*   content of a result : term, V.g (voxels of the geometry g), S.g.p.t (solution*)
(*   of the problem p with the options t), W.<term> (plots of a result)           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* documents for which a step fails (at the beginning, or after some computations)
MeshFails(g) == g \in {"gx"}
SolveFails(g, p, t) == p = "px" \/ (p = "p2" /\ g = "g2") \/ t \in {"tx", "tlib"}
Voxels(g) == [kind |-> "V", g |-> g, p |-> "", t |-> ""]
Solution(g, p, t) == [kind |-> "S", g |-> g, p |-> p, t |-> t]
Plots(r) == [r EXCEPT !.kind = IF r.kind = "V" THEN "WV" ELSE "WS"]
Spoiled == [kind |-> "spoiled", g |-> "", p |-> "", t |-> ""]
Name(r) == CASE r.kind = "V" -> "V." \o r.g
             [] r.kind = "S" -> "S." \o r.g \o "." \o r.p \o "." \o r.t
             [] r.kind = "WV" -> "W.V." \o r.g
             [] r.kind = "WS" -> "W.S." \o r.g \o "." \o r.p \o "." \o r.t
             [] r.kind = "spoiled" -> "spoiled"

\* a step of the caller: [op, obj, to, h]
\*   edit: the object obj gets the content to (in place)
\*   mesh: mesh the object obj
\*   solve: solve with the voxels h, the problem obj, and the options to (names of objects)
\*   plot: plots of the result h (viewer or plotter)
\*   spoil: the caller overwrites the result h (in place)
Can(e, obj, made) ==
    CASE e.op = "edit" -> e.obj \in DOMAIN obj
      [] e.op = "mesh" -> e.obj \in DOMAIN obj
      [] e.op = "solve" -> e.obj \in DOMAIN obj /\ e.to \in DOMAIN obj /\ e.h \in 1..Len(made) /\ made[e.h].kind = "V"
      [] e.op = "plot" -> e.h \in 1..Len(made) /\ made[e.h].kind \in {"V", "S"}
      [] e.op = "spoil" -> e.h \in 1..Len(made)
Fails(e, obj, made) ==
    CASE e.op = "mesh" -> MeshFails(obj[e.obj])
      [] e.op = "solve" -> SolveFails(made[e.h].g, obj[e.obj], obj[e.to])
      [] OTHER -> FALSE
Objects(e, obj) == IF e.op = "edit" THEN [obj EXCEPT ![e.obj] = e.to] ELSE obj
Results(e, obj, made) ==
    IF Fails(e, obj, made) THEN made
    ELSE CASE e.op = "mesh" -> Append(made, Voxels(obj[e.obj]))
           [] e.op = "solve" -> Append(made, Solution(made[e.h].g, obj[e.obj], obj[e.to]))
           [] e.op = "plot" -> Append(made, Plots(made[e.h]))
           [] e.op = "spoil" -> [made EXCEPT ![e.h] = Spoiled]
           [] e.op = "edit" -> made
=============================================================================
