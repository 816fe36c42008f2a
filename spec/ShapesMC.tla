------------------------------- MODULE ShapesMC -------------------------------
(* All the sequences of up to three pieces (rectangle, holed polygon, pad, trace) added or subtracted, on two layers. *)
EXTENDS Shapes, TLC, Json, IOUtils

P(x, y) == <<x, y>>
Rect(x0, x1, y0, y1) == << P(x0, y0), P(x1, y0), P(x1, y1), P(x0, y1) >>
Poly(s, hs, r) == [type |-> "polygon", coord |-> s, holes |-> hs, r |-> r]
Big == Poly(Rect("0.1", "4.9", "0.1", "3.9"), <<>>, "")
Ring == Poly(Rect("0.1", "4.9", "0.1", "3.9"), << Rect("1.1", "2.9", "1.1", "2.9"), Rect("3.2", "4.4", "0.8", "3.1") >>, "")
Part == Poly(<< P("1.1", "0.6"), P("4.2", "1.1"), P("2.1", "3.6") >>, <<>>, "")
Bow == Poly(<< P("0.1", "0.1"), P("4.9", "3.9"), P("4.9", "0.1"), P("0.1", "3.8") >>, <<>>, "")
Pad == [type |-> "pad", coord |-> << P("2.1", "2.3"), P("3.9", "0.8") >>, holes |-> <<>>, r |-> "0.9"]
Trace1 == [type |-> "trace", coord |-> << P("0.2", "0.4"), P("3.1", "0.9"), P("4.1", "3.3") >>, holes |-> <<>>, r |-> "0.7"]
Forms == { Big, Ring, Part, Pad, Trace1, Poly(Rect("1.2", "2.3", "1.1", "2.4"), <<>>, "0.4"), Bow }
Item(f, op, ls) == [op |-> op, layers |-> ls] @@ f
Where == { <<"p">>, <<"q">>, <<"q", "p">> }
Base(shapes) == [d |-> <<"1.0", "1.0", "0.5">>, cz |-> "0.25", lo |-> <<"0.0", "0.0">>, hi |-> <<"5.0", "4.0">>, slack |-> "1e-9",
                 names |-> <<"a", "b">>, layers |-> << [n_layer |-> 1, tag |-> "p"], [n_layer |-> 2, tag |-> "q"] >>, shapes |-> shapes]
Other == << Item(Poly(Rect("4.0", "4.95", "3.0", "3.95"), <<>>, ""), "add", <<"q">>) >>
Reqs ==
    { Base([a |-> << Item(f, "add", u), Item(g, o, v) >>, b |-> Other]) : f \in Forms, g \in Forms, u \in Where, v \in Where, o \in {"add", "sub"} }
    \cup { Base([a |-> << Item(f, "sub", <<"p">>), Item(Big, "add", <<"p">>), Item(g, o, <<"p">>) >>, b |-> Other]) :
             f \in Forms, g \in Forms, o \in {"add", "sub"} }
    \cup { [Base([a |-> << Item(f, "add", <<"p">>) >>, b |-> Other]) EXCEPT !.lo = lo, !.hi = hi, !.cz = z, !.layers = ls] :
             f \in Forms, lo \in {<<>>, <<"-1.0", "0.5">>}, hi \in {<<>>, <<"3.0", "6.5">>, <<"-1.0", "4.0">>, <<"-3.0", "-4.0">>}, z \in {"", "-1.0"},
             ls \in { << [n_layer |-> 2, tag |-> "p"], [n_layer |-> 1, tag |-> "q"] >>, << [n_layer |-> 1, tag |-> "q"], [n_layer |-> 3, tag |-> "p"] >>,
                      << [n_layer |-> 1, tag |-> "p"], [n_layer |-> 1, tag |-> "p"] >> } }

MCInit == \E r \in Reqs : InitShapes(r)
Layers1 == PrintT("REQ " \o ToJson(req)) /\ Layers
Layers2 == phase = "layers" /\ Layers1
Done == Final /\ UNCHANGED hvars
MCNext == Layers2 \/ Compose \/ MakeGrid \/ Fill \/ Finish \/ Done
=============================================================================
