------------------------------- MODULE SolidsMC -------------------------------
(* Boxes at all the positions of a coarse raster around the grid, with and without bounds, and defective files. *)
EXTENDS Solids, TLC, Json, IOUtils

Box(x0, x1, y0, y1, z0, z1) == [
    parts |-> << << <<"1","0","0",x1>>, <<"-1","0","0",DNeg(x0)>>, <<"0","1","0",y1>>, <<"0","-1","0",DNeg(y0)>>,
                    <<"0","0","1",z1>>, <<"0","0","-1",DNeg(z0)>> >> >>,
    box |-> << <<x0, y0, z0>>, <<x1, y1, z1>> >>]
Body(t, f, s, o, b) == [name |-> t, file |-> f, scale |-> s, offset |-> o] @@ b
Zero == <<"0.0", "0.0", "0.0">>
Spans == { <<"0.25", "0.75">>, <<"-0.4", "1.25">>, <<"0.5", "2.6">>, <<"1.2", "1.4">>, <<"0.7", "1.3">>, <<"2.2", "3.4">>, <<"0.0", "2.0">> }
B(x, y, z) == Box(x[1], x[2], y[1], y[2], z[1], z[2])
Wide == <<"0.3", "1.6">>
Req(d, lo, hi, bs) == [d |-> d, lo |-> lo, hi |-> hi, names |-> <<"a", "b">>, bodies |-> bs]
Reqs ==
    { Req(<<"1.0", "1.0", "1.0">>, Zero, <<"2.0", "2.0", "2.0">>, << Body("a", "good", "1.0", Zero, B(x, y, z)) >>) :
        x \in Spans, y \in Spans, z \in {Wide, <<"0.2", "0.8">>} }
    \cup { Req(<<"0.5", "0.4", "0.7">>, <<>>, <<>>, << Body("a", "good", s, o, B(x, y, Wide)) >>) :
        s \in {"1.0", "0.5", "2.0"}, o \in {Zero, <<"1.0", "-2.0", "0.5">>}, x \in Spans, y \in {Wide, <<"0.5", "2.6">>} }
    \cup { Req(<<"0.5", "0.5", "0.5">>, lo, hi, << Body("a", "good", "1.0", Zero, B(<<"0.1", "1.2">>, <<"0.3", "0.8">>, <<"0.2", "1.3">>)),
                                                   Body(t, f, "1.0", <<x, "0.0", "0.0">>, B(<<"0.1", "1.2">>, <<"0.3", "0.8">>, <<"0.2", "1.3">>)) >>) :
        t \in {"a", "b"}, x \in {"0.0", "0.8", "1.7", "2.2"}, f \in {"good", "open", "missing", "garbage"},
        lo \in {<<>>, <<"0.1", "0.1", "0.1">>}, hi \in {<<>>, <<"2.1", "1.1", "1.6">>, <<"0.1", "1.1", "1.6">>, <<"-0.9", "1.1", "1.6">>} }

MCInit == \E r \in Reqs : InitSolids(r)
First == phase = "load" /\ left = req.bodies
Load1 == (First => PrintT("REQ " \o ToJson(req))) /\ Load
Done == Final /\ UNCHANGED svars
MCNext == Load1 \/ MakeGrid \/ Fill \/ Finish \/ Done
=============================================================================
