------------------------------- MODULE FourierMC -------------------------------
EXTENDS Fourier, TLC, Json, IOUtils
Vals == {"-1.5", "0", "2"}
CVals == { <<"1", "0">>, <<"-0.5", "2">> }
Reqs == UNION { { [start |-> "signal", signal |-> s, series |-> <<>>, count |-> c, samples |-> m] :
                  s \in [1..N -> Vals], c \in {0, 1, 2, 4}, m \in {N, N+1} } : N \in 1..4 }
   \cup { [start |-> "series", signal |-> <<>>, series |-> v, count |-> 0, samples |-> m] :
            v \in UNION { [1..K -> CVals] : K \in 2..3 }, m \in {0, 3, 4, 5, 6, 9} }
Init == \E r \in Reqs : InitF(r)
Emit == phase = req.start /\ PrintT("REQ " \o ToJson(req))
Done == phase \in {"back", "again"} /\ UNCHANGED fvars
Next == (Emit /\ (Analyse \/ Synthesise)) \/ (phase # req.start /\ (Synthesise \/ Again)) \/ Done
=============================================================================
