-------------------------------- MODULE PeecMC --------------------------------
(* Bounded exploration of the solver: exhaustive families of small problems.   *)
(* Every problem is emitted (one JSON line) in order to be replayed on the     *)
(* implementation.                                                             *)
(*                                                                             *)
(* For static problems without magnetic materials, the network equations are   *)
(* assembled and eliminated here (Gauss-Jordan with decimals): existence,      *)
(* uniqueness, power balance and passivity of the solution are invariants of   *)
(* the specification.                                                          *)
EXTENDS Peec, Json, IOUtils

Family == IOEnv.FAMILY
Quick  == IOEnv.TIER = "quick"     \* a part of each family only

VARIABLE gauss

mvars == <<vars, gauss>>

NoGauss == [state |-> "none", mat |-> <<>>, col |-> 0]

---------------------------------------------------------------------------
(* families *)

Base(size) == [
    n |-> size, d |-> <<"1e-3", "2e-3", "5e-4">>, c |-> <<"0.0", "0.0", "0.0">>,
    dom |-> <<>>, mats |-> <<>>, srcs |-> <<>>, freq |-> "0.0", pts |-> <<>>, field |-> "face"]

Cell3(sz) == 0..(sz[1]*sz[2]*sz[3] - 1)
Where(f, v) == SetToSortSeq({ i \in DOMAIN f : f[i] = v }, <)

ElVal == [rho_re |-> "1e-4", rho_im |-> "0.0"]
MgVal == [chi_re |-> "10.0", chi_im |-> "0.5"]
MatVal(type) == IF type = "electric" THEN ElVal ELSE IF type = "magnetic" THEN MgVal ELSE ElVal @@ MgVal
Mat(tag, type, domains) == [tag |-> tag, type |-> type, orient |-> "isotropic", var |-> "lumped",
                            domains |-> domains, val |-> MatVal(type), given |-> TRUE]
CurVal(y) == [I_re |-> "2.0", I_im |-> "0.0", Y_re |-> y, Y_im |-> "0.0"]
VolVal(z) == [V_re |-> "3.0", V_im |-> "0.0", Z_re |-> z, Z_im |-> "0.0"]
Src(tag, type, domains) == [tag |-> tag, type |-> type, var |-> "lumped", domains |-> domains,
                            val |-> IF type = "current" THEN CurVal("4.0") ELSE VolVal("0.1"), given |-> TRUE]

\* materials and sources on arbitrary combinations of two domains (line of three voxels)
DomLists == { <<"a">>, <<"b">>, <<"b", "a">> }
EmptyReqs ==
    { [Base(<<3, 1, 1>>) EXCEPT
         !.dom = ("a" :> <<1, 0>>), !.mats = << Mat("m1", "electric", m) >>, !.srcs = << Src("s1", "voltage", s) >>] :
        m \in { <<>>, <<"a">> }, s \in { <<>>, <<"a">> } }
PlaceReqs ==
    { [Base(<<3, 1, 1>>) EXCEPT
         !.dom = [t \in {"a", "b"} |-> Where(f, t)],
         !.mats = << Mat("m1", k, l), Mat("m2", q, p) >>,
         !.srcs = << Src("s1", ty, s) >>] :
        f \in { g \in [0..2 -> {"a", "b", "-"}] : Quick => g[0] = "a" }, k \in {"electric", "magnetic", "electromagnetic"},
        l \in DomLists, q \in { x \in {"electric", "magnetic"} : Quick => x = "magnetic" }, p \in DomLists, ty \in {"current", "voltage"}, s \in DomLists }

\* components: terminals, conductors, cores, and voids on all the patterns
PatternReqs ==
    { [Base(sz) EXCEPT
         !.dom = [t \in {"t", "c", "m"} |-> Where(f, t)],
         !.mats = << Mat("m1", "electric", <<"c", "t">>), Mat("m2", "magnetic", <<"m">>) >>,
         !.srcs = << Src("s1", "voltage", <<"t">>) >>, !.freq = fr] :
        sz \in { x \in {<<4, 1, 1>>, <<1, 2, 2>>} : Quick => x[1] = 1 },
        f \in [0..3 -> {"t", "c", "m", "-"}], fr \in { x \in {"0.0", "1000.0"} : Quick => x = "0.0" } }

\* lengths of the values (three voxels, two of them are terminals), names
Rep(x, k) == [i \in 1..k |-> x]
Shapes == { <<v, o, k, l>> \in {"lumped", "distributed"} \X {"isotropic", "anisotropic"} \X (1..4) \X (2..4) :
              /\ (v = "lumped" => k = 3) /\ (o = "isotropic" => l = 3) }
ShapeOf(s, x) == LET one == IF s[2] = "isotropic" THEN x ELSE Rep(x, s[4])
                 IN IF s[1] = "lumped" THEN one ELSE Rep(one, s[3])
ValueReqs ==
    { [Base(<<3, 1, 1>>) EXCEPT
         !.dom = [t \in {"t", "c"} |-> IF t = "t" THEN <<2, 0>> ELSE <<1>>],
         !.mats = << [tag |-> "m1", type |-> "electromagnetic", orient |-> s[2], var |-> s[1],
                      domains |-> << "t", md >>, given |-> gm,
                      val |-> [f \in {"rho_re", "rho_im", "chi_re", "chi_im"} |->
                                 ShapeOf(IF f = bad THEN s ELSE <<s[1], s[2], 3, 3>>,
                                         IF f = "rho_re" THEN "1e-4" ELSE IF f = "chi_re" THEN "10.0" ELSE "0.0")]] >>,
         !.srcs = << [Src("s1", ty, <<"t">>) EXCEPT !.given = gs] >>] :
        s \in Shapes, bad \in {"rho_re", "rho_im", "chi_re", "chi_im"}, ty \in {"voltage"},
        md \in {"c"}, gm \in {TRUE}, gs \in {TRUE} }
    \union
    { [Base(<<3, 1, 1>>) EXCEPT
         !.dom = [t \in {"t", "c"} |-> IF t = "t" THEN <<2, 0>> ELSE <<1>>],
         !.mats = << [Mat("m1", ty, << "t", md >>) EXCEPT !.given = gm] >>,
         !.srcs = << [Src("s1", st, << "t", sd >>) EXCEPT !.given = gs] >>] :
        ty \in {"electric", "magnetic", "electromagnetic"}, st \in {"current", "voltage"},
        md \in {"c", "zz"}, sd \in {"c", "zz"}, gm \in BOOLEAN, gs \in BOOLEAN }
    \union
    { [Base(<<3, 1, 1>>) EXCEPT
         !.dom = [t \in {"t", "c"} |-> IF t = "t" THEN <<2, 0>> ELSE <<1>>],
         !.mats = << Mat("m1", "electric", <<"c", "t">>) >>,
         !.srcs = << [Src("s1", ty, << sd >>) EXCEPT
                        !.var = v,
                        !.val = [f \in DOMAIN @ |-> IF v = "lumped" THEN @[f] ELSE Rep(@[f], IF f \in bad THEN k ELSE 2)]] >>] :
        ty \in {"current", "voltage"}, v \in {"lumped", "distributed"}, k \in 0..3, sd \in {"t", "zz"},
        bad \in { {"I_re", "V_re"}, {"I_im", "V_im"}, {"Y_re", "Z_re"}, {"Y_im", "Z_im"} } }

\* static networks: two sources of all kinds on all the patterns of a small plate
SrcKinds == { <<"current", "0.0">>, <<"current", "4.0">>, <<"voltage", "0.0">>, <<"voltage", "0.1">> }
SrcOf(tag, k, domains) == [tag |-> tag, type |-> k[1], var |-> "lumped", domains |-> domains, given |-> TRUE,
                           val |-> IF k[1] = "current" THEN CurVal(k[2]) ELSE VolVal(k[2])]
StaticReqs ==
    { [Base(sz) EXCEPT
         !.dom = [t \in {"p", "q", "c"} |-> Where(f @@ (0 :> "p"), t)],
         !.mats = << [tag |-> "m1", type |-> "electric", orient |-> "anisotropic", var |-> "lumped",
                      domains |-> <<"c", "p">>, given |-> TRUE,
                      val |-> [rho_re |-> <<"1e-4", "3e-4", "2e-4">>, rho_im |-> Rep("0.0", 3)]],
                     Mat("m2", "electric", <<"q">>) >>,
         !.srcs = << SrcOf("s1", k1, <<"p">>), SrcOf("s2", k2, <<"q">>) >>] :
        sz \in { x \in {<<2, 2, 1>>, <<2, 1, 2>>} : Quick => x[2] = 1 },
        f \in { g \in [1..3 -> {"p", "q", "c", "-"}] : Quick => g[3] # "-" },
        k1 \in SrcKinds, k2 \in SrcKinds }

Requests == CASE Family = "place"   -> PlaceReqs
              [] Family = "pattern" -> PatternReqs
              [] Family = "value"   -> ValueReqs \union EmptyReqs
              [] Family = "static"  -> StaticReqs

---------------------------------------------------------------------------
(* static network equations: unknowns are the potentials and the currents of the voltage sources *)

Nodes == SetToSortSeq(net.e, <)
VSrcs == SetToSortSeq({ i \in DOMAIN net.s : net.s[i].type = "voltage" }, <)
Size  == Len(Nodes) + Len(VSrcs)
Rank(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x

One == <<"1", "0">>
Row(r) ==
    LET nn == Len(Nodes) IN
    IF r <= nn THEN
        LET i == Nodes[r]
            at == { k \in 1..Len(net.fe) : net.fe[k][2] = i \/ NextVox(net.fe[k][1], net.fe[k][2]) = i }
            other(k) == IF net.fe[k][2] = i THEN NextVox(net.fe[k][1], net.fe[k][2]) ELSE net.fe[k][2]
            cur == i \in DOMAIN net.s /\ net.s[i].type = "current"
            diag == CSum([k \in 1..Len(net.fe) |-> IF k \in at THEN CInv(net.re[k]) ELSE CZero])
        IN  [c \in 1..(Size+1) |->
              IF c = Size+1 THEN (IF cur THEN net.s[i].val ELSE CZero)
              ELSE IF c = r THEN (IF cur THEN CAdd(diag, net.s[i].el) ELSE diag)
              ELSE IF c <= nn THEN
                CSum([k \in 1..Len(net.fe) |-> IF k \in at /\ other(k) = Nodes[c] THEN CSub(CZero, CInv(net.re[k])) ELSE CZero])
              ELSE IF VSrcs[c-nn] = i THEN CSub(CZero, One) ELSE CZero]
    ELSE
        LET i == VSrcs[r-nn] IN
        [c \in 1..(Size+1) |->
              IF c = Size+1 THEN net.s[i].val
              ELSE IF c = Rank(Nodes, i) THEN One
              ELSE IF c = r THEN net.s[i].el ELSE CZero]

Eligible == phase = "done" /\ net.m = {} /\ Static

Assemble ==
    /\ Eligible /\ gauss.state = "none"
    /\ gauss' = [state |-> "run", col |-> 1, mat |-> [r \in 1..Size |-> Row(r)]]
    /\ UNCHANGED vars

Eliminate ==
    /\ gauss.state = "run" /\ gauss.col <= Size
    /\ LET c == gauss.col
           m == gauss.mat
           best == CHOOSE p \in c..Size : \A q \in c..Size : DLe(CAbs2(m[q][c]), CAbs2(m[p][c]))
           swap == [m EXCEPT ![c] = m[best], ![best] = m[c]]
           piv == CInv(swap[c][c])
           unit == [k \in 1..(Size+1) |-> CMul(piv, swap[c][k])]
           new == [r \in 1..Size |-> IF r = c THEN unit
                     ELSE [k \in 1..(Size+1) |-> CSub(swap[r][k], CMul(swap[r][c], unit[k]))]]
       IN  IF DLe(CAbs(m[best][c]), "1e-20")
           THEN gauss' = [gauss EXCEPT !.state = "singular"]
           ELSE gauss' = [gauss EXCEPT !.mat = new, !.col = c + 1,
                                       !.state = IF c = Size THEN "solved" ELSE "run"]
    /\ UNCHANGED vars

X(k) == gauss.mat[k][Size+1]
Pot(i) == X(Rank(Nodes, i))
Inj(i) == IF net.s[i].type = "current" THEN CSub(net.s[i].val, CMul(net.s[i].el, Pot(i)))
          ELSE X(Len(Nodes) + Rank(VSrcs, i))
FaceI(k) == CDiv(CSub(Pot(net.fe[k][2]), Pot(NextVox(net.fe[k][1], net.fe[k][2]))), net.re[k])

---------------------------------------------------------------------------
(* invariants *)

TypeInv ==
    /\ phase \in {"names", "voxels", "place", "values", "network", "integrals", "done", "refused", "unspecified"}
    /\ (phase = "refused") = (why # "")

\* a refusal is justified and a network has no reason to be refused
NetInv == phase \in {"integrals", "done"} =>
    /\ net.e # {} /\ DOMAIN net.s # {} /\ DOMAIN net.s \subseteq net.e
    /\ \A k \in 1..Len(net.fe) : net.fe[k][2] \in net.e /\ NextVox(net.fe[k][1], net.fe[k][2]) \in net.e
    /\ \A k \in 1..Len(net.fm) : net.fm[k][2] \in net.m /\ NextVox(net.fm[k][1], net.fm[k][2]) \in net.m
    /\ \A k \in 1..Len(net.re) : DLt("0", net.re[k][1])
    /\ \A k \in 1..Len(net.rm) : DLt("0", net.rm[k][1])
    \* the number of faces determines the number of loops: never less than a spanning forest
    /\ Len(net.fe) >= Cardinality(net.e) - Cardinality(Components(net.e))
    \* every component of the structure with a conductor has a source
    /\ \A k \in Components(Used) : k \intersect net.e # {} => k \intersect DOMAIN net.s # {}

\* a unique solution exists if and only if the potential of every component is fixed
SingularInv ==
    /\ gauss.state = "singular" => ~Referenced
    /\ gauss.state = "solved" => Referenced

\* currents are conserved, powers are balanced, losses are positive
SolutionInv == gauss.state = "solved" =>
    LET loss == DSum([k \in 1..Len(net.fe) |-> DMul(net.re[k][1], CAbs2(FaceI(k)))])
        ss == SetToSeq(DOMAIN net.s)
        given == DSum([k \in 1..Len(ss) |-> Apparent(Pot(ss[k]), Inj(ss[k]))[1]])
        net0 == CSum([k \in 1..Len(ss) |-> Inj(ss[k])])
    IN  /\ DLe("0", loss)
        /\ DNear(loss, given, DAdd("1e-20", DMul("1e-20", DAbs(loss))))
        /\ DLe(CAbs(net0), "1e-20")

Inv == TypeInv /\ NetInv /\ SingularInv /\ SolutionInv

---------------------------------------------------------------------------
MCInit == \E r \in Requests : InitWith(r) /\ gauss = NoGauss

Emit ==
    /\ phase = "names"
    /\ (IOEnv.EMIT = "yes" => PrintT("REQ " \o ToJson(req)))

NamesEmit == Emit /\ Names /\ UNCHANGED gauss
Voxels1  == Voxels /\ UNCHANGED gauss
Place1   == Place /\ UNCHANGED gauss
Values1  == Values /\ UNCHANGED gauss
Connect1 == Connect /\ UNCHANGED gauss
Integrate1 == Integrate /\ UNCHANGED gauss
MCDone == /\ Final /\ (Eligible => gauss.state \in {"singular", "solved"})
          /\ UNCHANGED mvars

MCNext == NamesEmit \/ Voxels1 \/ Place1 \/ Values1 \/ Connect1 \/ Integrate1 \/ Assemble \/ Eliminate \/ MCDone
=============================================================================
