------------------------------- MODULE GerberMC -------------------------------
(* All the stacks of up to three of three files (in three colors), one or two images, with unknown names and images which are there before. *)
EXTENDS Gerber, TLC, Json, IOUtils
Files == [top |-> << <<0, 0>>, <<1, 0>>, <<1, 1>> >>, via |-> << <<1, 0>>, <<2, 1>> >>, none |-> <<>> ]
Colors == [cu |-> <<255, 0, 0>>, back |-> <<255, 255, 255>>, s |-> <<0, 128, 255>> ]
Item == { [gerber |-> g, color |-> c] : g \in {"top", "via", "none"}, c \in {"cu", "back", "s"} }
Odd == { [gerber |-> "absent", color |-> "cu"], [gerber |-> "top", color |-> "absent"] }
Base == [files |-> Files, edge |-> << <<0, 0>>, <<2, 1>> >>, w |-> 3, h |-> 2, colors |-> Colors, ce |-> <<0, 0, 0>>, cb |-> <<255, 255, 255>>,
         layers |-> <<>>, voxel |-> "1e-3", over |-> "2.0", margin |-> "0.1", old |-> <<>>]
One(s) == << [tag |-> "front", stack |-> s] >>
Reqs == { [Base EXCEPT !.layers = One(<<a, b>>)] : a, b \in Item }
   \cup { [Base EXCEPT !.layers = One(<<[gerber |-> "via", color |-> "s"], a, b>>), !.old = <<"front", "other">>] : a, b \in Item }
   \cup { [Base EXCEPT !.layers = One(<<a>>) \o << [tag |-> "back side", stack |-> <<b>>] >>, !.edge = <<>>, !.cb = <<1, 2, 3>>] : a, b \in Item \cup Odd }
   \cup { [Base EXCEPT !.layers = One(<<>>), !.voxel = v, !.over = o, !.margin = m] : v \in {"1e-3", "3.5e-4", "1.7e-4"}, o \in {"1.0", "2.0", "3.0", "0.5"}, m \in {"0.0", "0.1", "0.333"} }
MCInit == \E r \in Reqs : InitG(r)
Emit == phase = "project" /\ k = 1 /\ project = {} /\ PrintT("REQ " \o ToJson(req)) /\ (Project \/ Finish)
Later == ~(k = 1 /\ phase = "project") /\ (Project \/ Finish)
MCRender == phase = "render" /\ \E n \in {CHOOSE n \in 0..1000 : DpiOk(n)} : Render(n, DMul("100", req.margin))
MCSample == Sample(DDiv("100", req.over))
Done == Final /\ UNCHANGED gvars
MCNext == Emit \/ Later \/ MCRender \/ Trim \/ MCSample \/ Clean \/ Done
=============================================================================
