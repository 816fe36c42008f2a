-------------------------------- MODULE Gerber --------------------------------
(* Conversion of board layers into images (W08): one image for each requested stack of artwork files.                *)
(* The artwork files are sets of positions; the external tools are part of the model (the viewer renders a project,  *)
(* the image tool trims and samples a picture).                                                                      *)
(*                                                                                                                    *)
(* request: files (name -> positions), edge (positions), w, h (extent), colors (name -> <<r,g,b>>), ce, cb (edge and *)
(* background color), layers (sequence of [tag, stack: sequence of [gerber, color]]), voxel, over, margin (decimals), *)
(* old (pictures which are there before)                                                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Dec

VARIABLES req, phase, k, project, pics, why
gvars == <<req, phase, k, project, pics, why>>

InitG(r) == req = r /\ phase = "project" /\ k = 1 /\ project = {} /\ why = ""
            /\ pics = [t \in ToSet(r.old) |-> [img |-> <<>>, dpi |-> 0, border |-> "0", ops |-> <<>>]]

Layer == req.layers[k]
Known(l) == \A i \in 1..Len(l.stack) : l.stack[i].gerber \in DOMAIN req.files /\ l.stack[i].color \in DOMAIN req.colors

\* a project: entries [n, at, color]; the entry with the smallest number is in front, the entry -1 is the background
Entries(l) == { [n |-> i, at |-> ToSet(req.files[l.stack[i].gerber]), color |-> req.colors[l.stack[i].color]] : i \in 1..Len(l.stack) }
              \cup { [n |-> 0, at |-> ToSet(req.edge), color |-> req.ce], [n |-> -1, at |-> {}, color |-> req.cb] }
Shown(pj, p) == LET hit == { e \in pj : e.n >= 0 /\ p \in e.at }
                    top == CHOOSE e \in hit : \A f \in hit : e.n <= f.n
                    back == CHOOSE e \in pj : e.n = -1
                IN  IF hit = {} THEN back.color ELSE top.color
Image(pj) == [q \in 1..req.w*req.h |-> Shown(pj, <<(q-1) % req.w, (q-1) \div req.w>>)]

\* resolution (dots per inch): the closest integer to "over" dots per voxel; scale (percent) back to one dot per voxel
DpiOk(n) == DNear(DInt(n), DDiv(DMul("0.0254", req.over), req.voxel), "0.500001")
BorderOk(b) == DNear(b, DMul("100", req.margin), "1")
PctOk(p) == DNear(p, DDiv("100", req.over), "0.0051")

Project == /\ phase = "project" /\ k <= Len(req.layers)
           /\ IF Known(Layer) THEN project' = Entries(Layer) /\ phase' = "render" /\ UNCHANGED <<req, k, pics, why>>
              ELSE phase' = "refused" /\ why' = "unknown name" /\ UNCHANGED <<req, k, project, pics>>
Put(t, v) == pics' = [u \in DOMAIN pics \cup {t} |-> IF u = t THEN v ELSE pics[u]]
Render(dpi, border) == /\ phase = "render" /\ DpiOk(dpi) /\ BorderOk(border)
                       /\ Put(Layer.tag, [img |-> Image(project), dpi |-> dpi, border |-> border, ops |-> <<>>])
                       /\ phase' = "trim" /\ UNCHANGED <<req, k, project, why>>
Trim == /\ phase = "trim" /\ Put(Layer.tag, [pics[Layer.tag] EXCEPT !.ops = Append(@, <<"trim", "">>)])
        /\ phase' = "sample" /\ UNCHANGED <<req, k, project, why>>
Sample(pct) == /\ phase = "sample" /\ PctOk(pct) /\ Put(Layer.tag, [pics[Layer.tag] EXCEPT !.ops = Append(@, <<"sample", pct>>)])
               /\ phase' = "clean" /\ UNCHANGED <<req, k, project, why>>
Clean == /\ phase = "clean" /\ project' = {} /\ k' = k+1 /\ phase' = "project" /\ UNCHANGED <<req, pics, why>>
Finish == /\ phase = "project" /\ k > Len(req.layers) /\ phase' = "done" /\ UNCHANGED <<req, k, project, pics, why>>
Final == phase \in {"done", "refused"}

---------------------------------------------------------------------------
Tags == { req.layers[i].tag : i \in 1..Len(req.layers) }
\* what is drawn where: the edge hides everything, the first file of the stack hides the next ones
InvDrawn ==
    \A i \in 1..Len(req.layers) : (i < k \/ (i = k /\ phase \in {"trim", "sample", "clean"})) /\ (\A j \in 1..Len(req.layers) : j > i => req.layers[j].tag # req.layers[i].tag) =>
        LET l == req.layers[i] img == pics[l.tag].img IN
        \A q \in 1..req.w*req.h :
            LET p == <<(q-1) % req.w, (q-1) \div req.w>>
                on == { j \in 1..Len(l.stack) : p \in ToSet(req.files[l.stack[j].gerber]) } IN
            img[q] = IF p \in ToSet(req.edge) THEN req.ce ELSE IF on = {} THEN req.cb
                     ELSE req.colors[l.stack[CHOOSE j \in on : \A m \in on : j <= m].color]
\* one dot per voxel (up to the rounding of the resolution and of the percentage)
InvScale == phase = "done" => \A t \in Tags :
    /\ Len(pics[t].ops) = 2 /\ pics[t].ops[1][1] = "trim" /\ pics[t].ops[2][1] = "sample"
    /\ LET dots == DMul(DDiv(DMul(DInt(pics[t].dpi), req.voxel), "0.0254"), DDiv(pics[t].ops[2][2], "100"))
       IN  DNear(dots, "1", DAdd(DDiv(req.voxel, DMul("0.05", req.over)), "0.001"))
InvKept == \A t \in ToSet(req.old) \ Tags : pics[t] = [img |-> <<>>, dpi |-> 0, border |-> "0", ops |-> <<>>]
InvClean == phase = "done" => project = {} /\ DOMAIN pics = Tags \cup ToSet(req.old)
InvRefused == phase = "refused" => \E i \in 1..Len(req.layers) : ~Known(req.layers[i])
GerberInv == InvDrawn /\ InvScale /\ InvKept /\ InvClean /\ InvRefused
=============================================================================
