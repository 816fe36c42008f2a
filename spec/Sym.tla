---------------------------------- MODULE Sym ----------------------------------
(***************************************************************************)
(* Transformations of a problem which do not change the physics:           *)
(*                                                                         *)
(*   moves     mirror an axis, exchange two axes, embed the structure in a *)
(*             larger grid, translate it in space                          *)
(*   rewrites  other descriptions of the same situation: value formats,    *)
(*             order and names of domains, materials and sources, split    *)
(*             domains, split materials, split sources                     *)
(*   scaling   multiply all the sources with a complex factor              *)
(*   alone     set all the sources but one to zero (superposition)         *)
(*                                                                         *)
(* The history of the transformations is a map of the voxels, of the axes  *)
(* and of the signs.  The network of a transformed problem is the image of *)
(* the network of the original problem (invariant SameNetwork): therefore  *)
(* the solution has to be the image of the solution.                       *)
(***************************************************************************)
EXTENDS Peec

VARIABLES
    stage,   \* "base", "rewrite", "again", "end"
    net0,    \* network of the original problem
    how,     \* history: [vox, axis, sign, par, fac, live, ops]
    left     \* number of transformations to be done

svars == <<vars, stage, net0, how, left>>

Cells(r) == r.n[1]*r.n[2]*r.n[3]
XYZ(n, i) == <<i % n[1], (i \div n[1]) % n[2], i \div (n[1]*n[2])>>
Lin(n, p) == p[1] + n[1]*(p[2] + n[2]*p[3])
MapDom(dom, f(_)) == [t \in DOMAIN dom |-> [k \in 1..Len(dom[t]) |-> f(dom[t][k])]]

StartHow(r) == [vox |-> [i \in 0..(Cells(r)-1) |-> i], axis |-> <<1, 2, 3>>, sign |-> <<1, 1, 1>>, par |-> 1,
                fac |-> <<"1", "0">>, live |-> 0..(Cells(r)-1), ops |-> <<>>]

Log(h, what) == [h EXCEPT !.ops = Append(@, what)]
Remap(h, f(_)) == [h EXCEPT !.vox = [i \in DOMAIN @ |-> f(@[i])]]

---------------------------------------------------------------------------
(* moves *)

Mirror(a) ==
    LET F(i) == LET p == XYZ(req.n, i) IN Lin(req.n, [p EXCEPT ![a] = req.n[a] - 1 - @])
    IN  /\ req' = [req EXCEPT !.dom = MapDom(@, F),
                              !.pts = [k \in 1..Len(@) |-> [@[k] EXCEPT ![a] = DSub(DMul("2", req.c[a]), @)]]]
        /\ how' = Log([Remap(how, F) EXCEPT !.sign = [b \in Axes |-> IF how.axis[b] = a THEN -@[b] ELSE @[b]],
                                            !.par = -@], "mirror")

Exchange(s, a, b) == [s EXCEPT ![a] = s[b], ![b] = s[a]]
SwapVal(m, a, b) ==
    IF m.orient = "isotropic" THEN m
    ELSE [m EXCEPT !.val = [f \in DOMAIN @ |->
            IF m.var = "lumped" THEN Exchange(@[f], a, b) ELSE [k \in 1..Len(@[f]) |-> Exchange(@[f][k], a, b)]]]
SwapAxes(a, b) ==
    LET n2 == Exchange(req.n, a, b)
        F(i) == Lin(n2, Exchange(XYZ(req.n, i), a, b))
        T(x) == IF x = a THEN b ELSE IF x = b THEN a ELSE x
    IN  /\ req' = [req EXCEPT !.n = n2, !.d = Exchange(@, a, b), !.c = Exchange(@, a, b), !.dom = MapDom(@, F),
                              !.pts = [k \in 1..Len(@) |-> Exchange(@[k], a, b)],
                              !.mats = [m \in 1..Len(@) |-> SwapVal(@[m], a, b)]]
        /\ how' = Log([Remap(how, F) EXCEPT !.axis = [x \in Axes |-> T(@[x])], !.par = -@], "exchange")

Embed(a, lo, hi) ==
    LET n2 == [req.n EXCEPT ![a] = @ + lo + hi]
        F(i) == LET p == XYZ(req.n, i) IN Lin(n2, [p EXCEPT ![a] = @ + lo])
    IN  /\ req' = [req EXCEPT !.n = n2, !.dom = MapDom(@, F),
                              !.c = [@ EXCEPT ![a] = DAdd(@, DMul(req.d[a], DDiv(DInt(hi - lo), "2")))]]
        /\ how' = Log(Remap(how, F), "embed")

Shift(a, x) ==
    /\ req' = [req EXCEPT !.c = [@ EXCEPT ![a] = DAdd(@, x)],
                          !.pts = [k \in 1..Len(@) |-> [@[k] EXCEPT ![a] = DAdd(@, x)]]]
    /\ how' = Log(how, "shift")

\* more room than the grid of the models is not needed
Room(a, k) == req.n[a] + k <= 5 /\ (Cells(req) \div req.n[a])*(req.n[a] + k) <= 60

Move == \/ \E a \in Axes : Mirror(a)
        \/ \E a, b \in Axes : a < b /\ SwapAxes(a, b)
        \/ \E a \in Axes : \E lo, hi \in 0..2 : lo + hi > 0 /\ Room(a, lo + hi) /\ Embed(a, lo, hi)
        \/ \E a \in Axes : \E x \in {"0.013", "-0.4"} : Shift(a, x)

---------------------------------------------------------------------------
(* rewrites *)

Count(domains) == Len(FlattenSeq([k \in 1..Len(domains) |-> req.dom[domains[k]]]))
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Const(x, k) == [i \in 1..k |-> x]

Rewrote(r, what) == req' = r /\ how' = Log(how, what)

\* lumped value of a material -> same value for each voxel
SpreadMat(m) ==
    /\ req.mats[m].var = "lumped" /\ Count(req.mats[m].domains) > 0
    /\ Rewrote([req EXCEPT !.mats[m].var = "distributed",
                           !.mats[m].val = [f \in DOMAIN @ |-> Const(@[f], Count(req.mats[m].domains))]], "spread material")
\* isotropic value -> same value for each axis
AxesMat(m) ==
    /\ req.mats[m].orient = "isotropic" /\ (req.mats[m].var = "distributed" => Count(req.mats[m].domains) > 0)
    /\ Rewrote([req EXCEPT !.mats[m].orient = "anisotropic",
                           !.mats[m].val = [f \in DOMAIN @ |->
                                IF req.mats[m].var = "lumped" THEN Const(@[f], 3)
                                ELSE [k \in 1..Len(@[f]) |-> Const(@[f][k], 3)]]], "values for the axes")
\* lumped source -> values of each voxel (currents in parallel)
ShareCur(x, k) == Const(DDiv(x, DInt(k)), k)
SpreadSrc(s) ==
    LET k == Count(req.srcs[s].domains) IN
    /\ req.srcs[s].var = "lumped" /\ k > 0
    /\ Rewrote([req EXCEPT !.srcs[s].var = "distributed",
                           !.srcs[s].val = [f \in DOMAIN @ |->
                                IF f \in {"I_re", "I_im", "Y_re", "Y_im"} THEN ShareCur(@[f], k)
                                ELSE IF f \in {"Z_re", "Z_im"} THEN Const(DMul(@[f], DInt(k)), k)
                                ELSE Const(@[f], k)]], "spread source")

\* blocks of values for the domains of a list, in another order
Block(domains, v, k) ==
    LET off == FoldLeft(LAMBDA x, j : x + Len(req.dom[domains[j]]), 0, [j \in 1..(k-1) |-> j])
    IN  SubSeq(v, off + 1, off + Len(req.dom[domains[k]]))
RevBlocks(domains, v) == FlattenSeq([k \in 1..Len(domains) |-> Block(domains, v, Len(domains) + 1 - k)])
TurnDomsMat(m) ==
    /\ Len(req.mats[m].domains) > 1
    /\ Rewrote([req EXCEPT !.mats[m].domains = Rev(@),
                           !.mats[m].val = IF req.mats[m].var = "lumped" THEN @
                                ELSE [f \in DOMAIN @ |-> RevBlocks(req.mats[m].domains, @[f])]], "domains of material")
TurnDomsSrc(s) ==
    /\ Len(req.srcs[s].domains) > 1
    /\ Rewrote([req EXCEPT !.srcs[s].domains = Rev(@),
                           !.srcs[s].val = IF req.srcs[s].var = "lumped" THEN @
                                ELSE [f \in DOMAIN @ |-> RevBlocks(req.srcs[s].domains, @[f])]], "domains of source")

\* voxels of a domain in the opposite order (with the values)
BackBlock(domains, v, t) ==
    FlattenSeq([k \in 1..Len(domains) |-> IF domains[k] = t THEN Rev(Block(domains, v, k)) ELSE Block(domains, v, k)])
TurnDomain(t) ==
    /\ Len(req.dom[t]) > 1
    /\ Rewrote([req EXCEPT
        !.dom[t] = Rev(@),
        !.mats = [m \in 1..Len(@) |-> IF @[m].var = "lumped" THEN @[m]
                    ELSE [@[m] EXCEPT !.val = [f \in DOMAIN @ |-> BackBlock(req.mats[m].domains, @[f], t)]]],
        !.srcs = [s \in 1..Len(@) |-> IF @[s].var = "lumped" THEN @[s]
                    ELSE [@[s] EXCEPT !.val = [f \in DOMAIN @ |-> BackBlock(req.srcs[s].domains, @[f], t)]]]], "voxels of domain")

\* a domain becomes two domains
Twice(domains, t) == FlattenSeq([k \in 1..Len(domains) |-> IF domains[k] = t THEN <<t, t \o "_x">> ELSE <<domains[k]>>])
SplitDomain(t) ==
    LET k == Len(req.dom[t]) \div 2 IN
    /\ k > 0 /\ (t \o "_x") \notin DOMAIN req.dom
    /\ Rewrote([req EXCEPT
        !.dom = (t \o "_x" :> SubSeq(req.dom[t], k + 1, Len(req.dom[t]))) @@ [@ EXCEPT ![t] = SubSeq(@, 1, k)],
        !.mats = [m \in 1..Len(@) |-> [@[m] EXCEPT !.domains = Twice(@, t)]],
        !.srcs = [s \in 1..Len(@) |-> [@[s] EXCEPT !.domains = Twice(@, t)]]], "split domain")

\* a material becomes two materials
SplitMat(m) ==
    LET x == req.mats[m]
        h == <<x.domains[1]>>
        t == Tail(x.domains)
        k == Count(h)
        tag == x.tag \o "_x"
    IN
    /\ Len(x.domains) > 1 /\ \A l \in Mats : req.mats[l].tag # tag
    \* an empty list of triples is not a defined value
    /\ (x.var = "distributed" /\ x.orient = "anisotropic") => k > 0 /\ Count(t) > 0
    /\ Rewrote([req EXCEPT !.mats =
        [@ EXCEPT ![m].domains = h,
                  ![m].val = IF x.var = "lumped" THEN @ ELSE [f \in DOMAIN @ |-> SubSeq(@[f], 1, k)]]
        \o << [x EXCEPT !.tag = tag, !.domains = t,
                        !.val = IF x.var = "lumped" THEN @ ELSE [f \in DOMAIN @ |-> SubSeq(@[f], k + 1, Len(@[f]))]] >>],
       "split material")
\* a source becomes two sources (voxel values)
SplitSrc(s) ==
    LET x == req.srcs[s]
        h == <<x.domains[1]>>
        t == Tail(x.domains)
        k == Count(h)
        tag == x.tag \o "_x"
    IN
    /\ Len(x.domains) > 1 /\ x.var = "distributed" /\ \A l \in Srcs : req.srcs[l].tag # tag
    /\ Rewrote([req EXCEPT !.srcs =
        [@ EXCEPT ![s].domains = h, ![s].val = [f \in DOMAIN @ |-> SubSeq(@[f], 1, k)]]
        \o << [x EXCEPT !.tag = tag, !.domains = t, !.val = [f \in DOMAIN @ |-> SubSeq(@[f], k + 1, Len(@[f]))]] >>],
       "split source")

TurnMats == Len(req.mats) > 1 /\ Rewrote([req EXCEPT !.mats = Rev(@)], "order of materials")
TurnSrcs == Len(req.srcs) > 1 /\ Rewrote([req EXCEPT !.srcs = Rev(@)], "order of sources")

\* other names, other alphabetical order
Renamed(t) == "z_" \o t
Rename(t) ==
    /\ t \in DOMAIN req.dom /\ Renamed(t) \notin DOMAIN req.dom
    /\ LET nw(domains) == [k \in 1..Len(domains) |-> IF domains[k] = t THEN Renamed(t) ELSE domains[k]] IN
       Rewrote([req EXCEPT
        !.dom = [u \in ((DOMAIN @) \ {t}) \union {Renamed(t)} |-> IF u = Renamed(t) THEN @[t] ELSE @[u]],
        !.mats = [m \in 1..Len(@) |-> [@[m] EXCEPT !.domains = nw(@)]],
        !.srcs = [s \in 1..Len(@) |-> [@[s] EXCEPT !.domains = nw(@)]]], "rename")

Rewrite == \/ \E m \in Mats : SpreadMat(m) \/ AxesMat(m) \/ TurnDomsMat(m) \/ SplitMat(m)
           \/ \E s \in Srcs : SpreadSrc(s) \/ TurnDomsSrc(s) \/ SplitSrc(s)
           \/ \E t \in DOMAIN req.dom : TurnDomain(t) \/ SplitDomain(t) \/ Rename(t)
           \/ TurnMats \/ TurnSrcs

---------------------------------------------------------------------------
(* scaling of the sources *)

ScaleVal(x, re, im, k, var) ==
    LET One(a, b) == CMul(k, <<a, b>>)
        R == IF var = "lumped" THEN One(x[re], x[im])[1] ELSE [j \in 1..Len(x[re]) |-> One(x[re][j], x[im][j])[1]]
        I == IF var = "lumped" THEN One(x[re], x[im])[2] ELSE [j \in 1..Len(x[re]) |-> One(x[re][j], x[im][j])[2]]
    IN  [x EXCEPT ![re] = R, ![im] = I]
Scale(k) ==
    /\ req' = [req EXCEPT !.srcs = [s \in 1..Len(@) |-> [@[s] EXCEPT !.val =
            IF req.srcs[s].type = "current" THEN ScaleVal(@, "I_re", "I_im", k, req.srcs[s].var)
            ELSE ScaleVal(@, "V_re", "V_im", k, req.srcs[s].var)]]]
    /\ how' = Log([how EXCEPT !.fac = CMul(@, k)], "scale")
Scaling == \E k \in { <<"2.5", "0">>, <<"-1", "0">>, <<"0", "1">>, <<"0.25", "-3">>, <<"1e-4", "2e-4">>, <<"1e3", "0">>, <<"1e-9", "0">>, <<"0", "-1e8">>, <<"1e-24", "2e-24">>, <<"1e16", "0">> } : Scale(k)

\* only one source is active (the voxels of the other sources keep their equation, with a zero value)
Alone(k) ==
    /\ how.ops = <<>>
    /\ req' = [req EXCEPT !.srcs = [s \in 1..Len(@) |-> IF s = k THEN @[s] ELSE [@[s] EXCEPT !.val =
            [f \in DOMAIN @ |-> IF f \notin {"I_re", "I_im", "V_re", "V_im"} THEN @[f]
                                ELSE IF req.srcs[s].var = "lumped" THEN "0" ELSE Const("0", Len(@[f]))]]]]
    /\ how' = Log([how EXCEPT !.live = ToSet(Join(req.srcs[k].domains))], "alone")

---------------------------------------------------------------------------
(* the network of the transformed problem is the image of the original one *)

NearC(x, y) == CNear(x, y, DMul("1e-20", DAdd(CAbs(x), CAbs(y))))
MapFace(f) == LET a == how.axis[f[1]]
                  i == how.vox[f[2]]
                  \* the successor along a mirrored axis is the predecessor
                  j == i - Stride(a)
              IN  IF how.sign[f[1]] = 1 THEN <<a, i>> ELSE <<a, j>>
FaceMap(fs, rs) == [f \in ToSet(fs) |-> rs[CHOOSE k \in 1..Len(fs) : fs[k] = f]]
SameFaces(fs0, rs0, fs, rs) ==
    LET o == FaceMap(fs0, rs0)  w == FaceMap(fs, rs) IN
    /\ { MapFace(f) : f \in DOMAIN o } = DOMAIN w
    /\ \A f \in DOMAIN o : NearC(o[f], w[MapFace(f)])
SameNetwork ==
    /\ { how.vox[i] : i \in net0.e } = net.e /\ { how.vox[i] : i \in net0.m } = net.m
    /\ SameFaces(net0.fe, net0.re, net.fe, net.re)
    /\ SameFaces(net0.fm, net0.rm, net.fm, net.rm)
    /\ { how.vox[i] : i \in DOMAIN net0.s } = DOMAIN net.s
    /\ \A i \in DOMAIN net0.s :
        LET o == net0.s[i]  w == net.s[how.vox[i]] IN
        /\ o.type = w.type /\ NearC(o.el, w.el) /\ NearC(IF i \in how.live THEN CMul(how.fac, o.val) ELSE CZero, w.val)

---------------------------------------------------------------------------
(* behaviours: network of the problem, transformations, network of the transformed problem *)

Kept == <<mvox, svox, net, tab>>
Advance ==
    /\ stage \in {"base", "again"} /\ phase \in {"names", "voxels", "place", "values", "network"}
    /\ Run
    /\ UNCHANGED <<stage, net0, how, left>>
Store ==
    /\ stage = "base" /\ phase = "integrals"
    /\ stage' = "rewrite" /\ net0' = net
    /\ UNCHANGED <<vars, how, left>>
Transform(A) ==
    /\ stage = "rewrite" /\ left > 0
    /\ A
    /\ left' = left - 1
    /\ UNCHANGED <<phase, why, mvox, svox, net, tab, stage, net0>>
Again ==
    /\ stage = "rewrite" /\ how.ops # <<>>
    /\ stage' = "again" /\ phase' = "names" /\ net' = NoNet /\ mvox' = <<>> /\ svox' = <<>>
    /\ UNCHANGED <<req, why, tab, net0, how, left>>

SymInit(r, k) == InitWith(r) /\ stage = "base" /\ net0 = NoNet /\ how = StartHow(r) /\ left = k

Inv == (stage = "again" /\ phase = "integrals" => SameNetwork) /\ (stage = "again" => phase # "refused")
=============================================================================
