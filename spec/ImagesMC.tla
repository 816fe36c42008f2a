------------------------------- MODULE ImagesMC -------------------------------
(* All the stacks of small images with three colors, one and two images per layer, and images with another size. *)
EXTENDS Images, Json, IOUtils

Black == "0,0,0,255"
Red == "255,0,0,255"
Clear == "255,0,0,0"
Colors == { Black, Red, Clear }
Img(w, h, S) == [1..h -> [1..w -> S]]

Base(size, cols) == [
    size |-> size, d |-> <<"1.0", "0.5", "2.0">>, c |-> <<"0.25", "-1.0", "3.0">>, names |-> <<"a", "b">>, colors |-> cols,
    check_cloud |-> FALSE, full_cloud |-> FALSE, pts |-> <<>>,
    use_reduce |-> FALSE, use_resample |-> FALSE, factor |-> <<1, 1, 1>>,
    resolve_rules |-> TRUE, resolve_random |-> FALSE, rules |-> <<>>,
    adjacent |-> <<>>, connected |-> <<>>]
Maps == { [a |-> <<Black>>, b |-> <<Red>>], [a |-> <<Red, Clear>>, b |-> <<Black>>], [a |-> <<Red>>, b |-> <<Clear, Red>>] }
L(k, s) == [n_layer |-> k, images |-> s]
Reqs ==
    { Base(<<2, 2>>, m) @@ [layers |-> << L(1, <<i>>) >>] : m \in Maps, i \in Img(2, 2, Colors) }
    \cup { Base(<<3, 2>>, m) @@ [layers |-> << L(2, <<i>>) >>] : m \in Maps, i \in Img(3, 2, {Black, Red}) }
    \cup { Base(<<2, 1>>, m) @@ [layers |-> << L(k, <<i>>), L(1, <<j>>) >>] :
             m \in Maps, k \in 1..2, i \in Img(2, 1, Colors), j \in Img(2, 1, Colors) }
    \cup { Base(<<1, 2>>, m) @@ [layers |-> << L(2, <<i, j>>), L(1, <<j>>) >>] :
             m \in Maps, i \in Img(1, 2, Colors), j \in Img(1, 2, Colors) }
    \cup { Base(<<2, 3>>, m) @@ [layers |-> << L(1, <<i>>) >>] : m \in Maps, i \in Img(3, 2, {Black}) \cup Img(2, 2, {Red}) \cup Img(2, 3, {Red}) }

MCInit == \E r \in Reqs : InitImages(r)
Emit == PrintT("REQ " \o ToJson(req))
Mesh == Cloud \/ Reduce \/ Resample \/ Rule \/ RuleEnd \/ RandomSkip \/ CheckDisjoint \/ Graph \/ CheckAdjacent \/ CheckConnected
Done == Final /\ UNCHANGED ivars
StackEmit == (left = req.layers /\ phase = "stack" => Emit) /\ Stack
MCNext == StackEmit \/ StackEnd \/ (Mesh /\ UNCHANGED left) \/ Done
ImgInv == InvImages /\ InvShape /\ InvDisjoint /\ InvComps
=============================================================================
