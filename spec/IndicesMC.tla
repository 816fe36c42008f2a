------------------------------- MODULE IndicesMC -------------------------------
(* All the indices around small grids. *)
EXTENDS Indices, TLC, Json, IOUtils
Sizes == { <<x, y, z>> : x \in 1..3, y \in 1..3, z \in 1..3 }
Reqs == { [n |-> s, kind |-> "linear", idx |-> <<i>>] : s \in Sizes, i \in -2..29 }
   \cup { [n |-> s, kind |-> "tensor", idx |-> << <<x, y, z>> >>] : s \in Sizes, x \in -1..3, y \in -1..3, z \in -1..3 }
   \cup { [n |-> s, kind |-> "linear", idx |-> [k \in 1..Total(s) |-> Total(s) - k]] : s \in Sizes }
   \cup { [n |-> s, kind |-> "tensor", idx |-> << <<0, 0, 0>>, <<s[1]-1, s[2]-1, s[3]-1>>, p >>] :
             s \in Sizes, p \in { <<0, 0, 2>>, <<0, 2, 0>>, <<2, 0, 0>>, <<-1, 0, 0>> } }
Init == \E r \in Reqs : InitIdx(r)
Emit == phase = "given" /\ PrintT("REQ " \o ToJson(req))
Next == (Emit /\ Forward) \/ Backward \/ (phase \in {"back", "refused"} /\ UNCHANGED xvars)
=============================================================================
