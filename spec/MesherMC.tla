------------------------------- MODULE MesherMC -------------------------------
(* Bounded exploration of the mesher: families of exhaustively enumerated     *)
(* requests.  Every request is also emitted (one JSON line), in order to be   *)
(* replayed on the implementation.                                            *)
EXTENDS Mesher, TLC, Json, IOUtils

Family == IOEnv.FAMILY

Base(size, names, dd, cc) == [
    n |-> size, d |-> dd, c |-> cc, names |-> names, dom |-> [t \in ToSet(names) |-> <<>>],
    check_cloud |-> FALSE, full_cloud |-> FALSE, pts |-> <<>>,
    use_reduce |-> FALSE, use_resample |-> FALSE, factor |-> <<1, 1, 1>>,
    resolve_rules |-> TRUE, resolve_random |-> FALSE, rules |-> <<>>,
    adjacent |-> <<>>, connected |-> <<>>]

One  == <<"1.0", "1.0", "1.0">>
Zero == <<"0.0", "0.0", "0.0">>
SeqsOf(S) == { SetToSortSeq(T, <) : T \in SUBSET S }

\* declared indices: sequences over a range exceeding the grid, with repetitions
IndexReqs ==
    { [Base(sz, <<"a", "b">>, <<"1.0", "0.5", "2.0">>, <<"0.25", "-1.0", "3.0">>)
         EXCEPT !.dom = [t \in {"a", "b"} |-> IF t = "a" THEN s ELSE u]] :
        sz \in {<<2, 1, 1>>, <<1, 2, 1>>, <<1, 1, 2>>, <<2, 2, 1>>},
        s \in { <<>> } \union { <<i>> : i \in 0..4 } \union { <<i, j>> : i, j \in 0..4 },
        u \in { <<>>, <<0>>, <<3>>, <<2, 1>> } }

\* reduction and refinement of every non-trivial pattern
GridReqs ==
    { [Base(sz, <<"a", "b">>, <<"1.0", "0.5", "0.25">>, <<"0.0", "1.0", "-2.0">>)
         EXCEPT !.dom = [t \in {"a", "b"} |-> IF t = "a" THEN s ELSE u],
                !.use_reduce = red, !.use_resample = res, !.factor = f] :
        sz \in {<<3, 2, 1>>, <<1, 3, 2>>, <<2, 1, 3>>},
        s \in SeqsOf(0..5), u \in { <<>>, <<0, 4>> },
        red \in BOOLEAN, res \in BOOLEAN, f \in { <<1, 2, 3>> } }

\* all the conflict patterns of three domains on three voxels, all the lists of up to two rules
Names3 == {"a", "b", "c"}
Pairs == { <<k, r>> \in (Names3 \union {"zz"}) \X Names3 : k # r }
RuleLists == { <<>> } \union { << [keep |-> <<p[1]>>, resolve |-> <<p[2]>>] >> : p \in Pairs }
    \union { << [keep |-> <<p[1]>>, resolve |-> <<p[2]>>], [keep |-> <<q[1]>>, resolve |-> <<q[2]>>] >> :
                p \in Pairs, q \in Pairs }
    \union { << [keep |-> <<"a", "b">>, resolve |-> <<"c">>] >>, << [keep |-> <<"c">>, resolve |-> <<"b", "a">>] >>,
             << [keep |-> <<"b">>, resolve |-> <<"c", "a">>], [keep |-> <<"a">>, resolve |-> <<"c", "b">>] >> }
ConflictReqs ==
    { [Base(<<1, 2, 1>>, <<"a", "b", "c">>, One, Zero)
         EXCEPT !.dom = [t \in Names3 |-> IF t = "a" THEN s ELSE IF t = "b" THEN u ELSE v],
                !.rules = rl, !.resolve_rules = rr, !.resolve_random = rnd] :
        s \in SeqsOf(0..1), u \in SeqsOf(0..1), v \in SeqsOf(0..1),
        rl \in RuleLists, rr \in BOOLEAN, rnd \in BOOLEAN }

\* all the patterns of a small grid: components
GraphReqs ==
    { [Base(sz, <<"a", "b">>, One, Zero)
         EXCEPT !.dom = [t \in {"a", "b"} |-> SetToSortSeq({ i \in T : (i % 2 = 0) = (t = "a") }, <)]] :
        sz \in {<<3, 3, 1>>, <<1, 3, 3>>, <<3, 1, 3>>}, T \in SUBSET (0..8) }
    \union
    { [Base(<<2, 2, 2>>, <<"a", "b">>, One, Zero)
         EXCEPT !.dom = [t \in {"a", "b"} |-> SetToSortSeq({ i \in T : (i < 3) = (t = "a") }, <)]] :
        T \in SUBSET (0..7) }

\* connection requirements between up to three domains laid on a line of five voxels
Checks(op) == { <<>> } \union { << [groups |-> g, connected |-> b] >> :
    g \in { << <<"a">>, <<"b">> >>, << <<"a">>, <<"b">>, <<"c">> >>, << <<"a", "c">>, <<"b">> >>,
            << <<"a">> >>, << <<"a">>, <<"zz">> >> }, b \in BOOLEAN }
LineDoms == { f \in [0..4 -> {"-", "a", "b", "c"}] : f[0] # "-" }
IntegrityReqs ==
    { [Base(<<5, 1, 1>>, <<"a", "b", "c">>, One, Zero)
         EXCEPT !.dom = [t \in Names3 |-> SetToSortSeq({ i \in 0..4 : f[i] = t }, <)],
                !.adjacent = IF adj THEN k ELSE <<>>, !.connected = IF adj THEN <<>> ELSE k] :
        f \in LineDoms, k \in Checks(0), adj \in BOOLEAN }

\* the points around a voxel, on a half-pitch raster
CloudReqs ==
    { [Base(<<3, 2, 2>>, <<"a", "b">>, <<"1.0", "2.0", "0.5">>, <<"0.5", "0.0", "0.0">>)
         EXCEPT !.dom = [t \in {"a", "b"} |-> IF t = "a" THEN s ELSE <<7>>],
                !.check_cloud = cc, !.full_cloud = fc,
                !.pts = << <<"5.0", "5.0", "5.0">>, <<x, y, z>>, <<"-5.0", "0.0", "0.0">> >>] :
        s \in { <<>>, <<0>>, <<4, 11>> }, cc \in BOOLEAN, fc \in BOOLEAN,
        x \in {"-1.5", "-0.5", "0.0", "0.75", "1.5", "2.5", "2.625"},
        y \in {"-3.0", "-3.25", "0.0", "1.0", "2.5"},
        z \in {"-0.75", "-0.875", "-0.25", "0.0", "0.5", "0.75", "1.0"} }

Reqs == CASE Family = "index"     -> IndexReqs
          [] Family = "grid"      -> GridReqs
          [] Family = "conflict"  -> ConflictReqs
          [] Family = "graph"     -> GraphReqs
          [] Family = "integrity" -> IntegrityReqs
          [] Family = "cloud"     -> CloudReqs

Init == \E r \in Reqs : InitWith(r)

LoadEmit == Load /\ (IOEnv.EMIT = "yes" => PrintT("REQ " \o ToJson(req)))
Finish == Final /\ UNCHANGED vars

\* one disjunct per stage; no deadlock: every request is eventually decided
MCNext ==
    \/ LoadEmit
    \/ Cloud
    \/ Reduce
    \/ Resample
    \/ Rule
    \/ RuleEnd
    \/ RandomSkip
    \/ RandomAny
    \/ CheckDisjoint
    \/ Graph
    \/ CheckAdjacent
    \/ CheckConnected
    \/ Finish

Spec == Init /\ [][MCNext]_vars
=============================================================================
