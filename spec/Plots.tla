--------------------------------- MODULE Plots ---------------------------------
(* Selection and lifecycle of the plots of the viewer and of the plotter (W03).  *)
(* request: kind ("viewer", "plotter"), plots (sequence: tag, framework, title,   *)
(* works), sweeps (sequence of tags, the plotter only), selplot and selsweep      *)
(* ([all, list]), mode, folder and name ("" is the default, "empty" the empty     *)
(* text which is refused).                                                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLES req, phase, todo, open, files, shown
pvars == <<req, phase, todo, open, files, shown>>

TagsOf(s) == { s[k].tag : k \in 1..Len(s) }
Chosen(sel, tags) == IF sel.all THEN tags ELSE ToSet(sel.list)
Known(sel, tags) == sel.all \/ ToSet(sel.list) \subseteq tags
SweepTags(r) == IF r.kind = "viewer" THEN {""} ELSE ToSet(r.sweeps)
Mode(r) == IF r.mode = "" THEN "qt" ELSE r.mode

Accepted(r) ==
    /\ Known(r.selplot, TagsOf(r.plots))
    /\ r.kind = "plotter" => Known(r.selsweep, SweepTags(r))
    /\ Mode(r) \in {"qt", "nb", "save", "debug"}
    /\ r.folder # "empty" /\ r.name # "empty"

\* the plots: pairs of sweep and plot tags
Selected(r) == { <<s, p>> : s \in (IF r.kind = "viewer" THEN {""} ELSE Chosen(r.selsweep, SweepTags(r))),
                            p \in Chosen(r.selplot, TagsOf(r.plots)) }
PlotOf(r, p) == r.plots[CHOOSE k \in 1..Len(r.plots) : r.plots[k].tag = p]
Key(x) == IF x[1] = "" THEN x[2] ELSE x[1] \o "_" \o x[2]
File(r, x) == (IF r.folder = "" THEN "" ELSE r.folder \o "/") \o (IF r.name = "" THEN "pypeec" ELSE r.name) \o "_" \o Key(x) \o ".png"
WindowTitle(r, x) == Key(x) \o " / " \o PlotOf(r, x[2]).title

InitP(r) == req = r /\ phase = "start" /\ todo = {} /\ open = {} /\ files = {} /\ shown = {}
CheckP ==
    /\ phase = "start"
    /\ IF Accepted(req) THEN phase' = "draw" /\ todo' = Selected(req) ELSE phase' = "refused" /\ UNCHANGED todo
    /\ UNCHANGED <<req, open, files, shown>>
\* the plots are drawn in any order, a plot that cannot be drawn ends the run
Draw ==
    /\ phase = "draw" /\ todo # {}
    /\ \E x \in todo :
          IF PlotOf(req, x[2]).works
          THEN todo' = todo \ {x} /\ open' = open \cup {x} /\ UNCHANGED phase
          ELSE phase' = "refused" /\ UNCHANGED <<todo, open>>
    /\ UNCHANGED <<req, files, shown>>
Finish ==
    /\ phase = "draw" /\ todo = {}
    /\ phase' = "done"
    /\ files' = IF Mode(req) = "save" THEN { File(req, x) : x \in open } ELSE {}
    /\ shown' = IF Mode(req) \in {"qt", "nb"} THEN open ELSE {}
    /\ open' = IF Mode(req) \in {"qt", "nb"} THEN open ELSE {}
    /\ UNCHANGED <<req, todo>>

\* distinct plots need distinct names
Colliding(r) == \E x, y \in Selected(r) : x # y /\ Key(x) = Key(y)
PlotsInv ==
    /\ phase = "refused" => files = {} /\ shown = {}
    /\ phase = "done" /\ Mode(req) = "debug" => files = {} /\ shown = {} /\ open = {}
    /\ phase = "done" /\ Mode(req) = "save" => open = {} /\ (~Colliding(req) => Cardinality(files) = Cardinality(Selected(req)))
    /\ phase = "done" => (shown = IF Mode(req) \in {"qt", "nb"} THEN Selected(req) ELSE {})
=============================================================================
