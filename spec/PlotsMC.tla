-------------------------------- MODULE PlotsMC --------------------------------
EXTENDS Plots, TLC, Json, IOUtils
P(t, f, w) == [tag |-> t, framework |-> f, title |-> "title " \o t, works |-> w]
VPlots == { <<P("a", "pyvista", TRUE)>>, <<P("b", "pyvista", TRUE), P("a", "pyvista", TRUE), P("c", "pyvista", TRUE)>> }
PPlots == { <<P("a", "pyvista", TRUE), P("m", "matplotlib", TRUE)>>,
            <<P("b", "pyvista", TRUE), P("m", "matplotlib", TRUE), P("x", "pyvista", FALSE)>> }
Sels(tags) == {[all |-> TRUE, list |-> <<>>]} \cup { [all |-> FALSE, list |-> l] : l \in UNION { [1..k -> tags] : k \in 0..(IF IOEnv.DEEP = "1" THEN 2 ELSE 1) } \cup {<<"a", "a">>, <<"b", "zz", "a">>} }
Modes == {"save", "debug", "qt", "nb", "", "bad"}
VReqs == UNION { { [kind |-> "viewer", plots |-> p, sweeps |-> <<>>, selplot |-> s, selsweep |-> [all |-> TRUE, list |-> <<>>],
                    mode |-> m, folder |-> f, name |-> n] :
                    s \in Sels(TagsOf(p) \cup {"zz"}), m \in Modes, f \in {"", "out", "empty"}, n \in {"", "pre", "empty"} } : p \in VPlots }
PReqs == UNION { UNION { { [kind |-> "plotter", plots |-> p, sweeps |-> w, selplot |-> s, selsweep |-> v, mode |-> m, folder |-> f, name |-> "pre"] :
                    s \in Sels(TagsOf(p) \cup {"zz"}), v \in Sels(ToSet(w) \cup {"zz"}), m \in Modes, f \in {"", "out"} } :
                  w \in { <<"s1">>, <<"s2", "s1">> } } : p \in PPlots }
MCInit == \E r \in VReqs \cup PReqs : InitP(r)
Emit == phase = "start" /\ PrintT("REQ " \o ToJson(req))
MCNext == (Emit /\ CheckP) \/ Draw \/ Finish \/ (phase \in {"done", "refused"} /\ UNCHANGED pvars)
=============================================================================
