------------------------------- MODULE PlotsTrace -------------------------------
(* Observation: ok, files (name, rec), shown (records), left (number of open plots) *)
EXTENDS Plots, PlotData, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, bad, verdict
Obs == Trace[id].obs
Data == Trace[id].data       \* structure and fields, [] if the content is not judged
Init == \E k \in 1..Len(Trace) : id = k /\ bad = <<>> /\ verdict = "" /\ InitP(Trace[k].req)
Failing(name, holds) == IF holds THEN <<>> ELSE <<name>>

Names == { Obs.files[k].name : k \in 1..Len(Obs.files) }
RecOf(x) == Obs.files[CHOOSE k \in 1..Len(Obs.files) : Obs.files[k].name = File(req, x)].rec
\* the record is the plot x: title in the plot for a 3D plot
Belongs(rec, x) == rec.framework = PlotOf(req, x[2]).framework
                   /\ (rec.framework = "pyvista" => rec.text = <<PlotOf(req, x[2]).title>>)
Lists == { Obs.shown[k] : k \in 1..Len(Obs.shown) }
ShownOk == /\ Len(Obs.shown) = Cardinality(shown)
           /\ \A x \in shown : \E k \in 1..Len(Obs.shown) : Belongs(Obs.shown[k], x)
                               /\ (Mode(req) = "qt" => Obs.shown[k].title = WindowTitle(req, x))

Selection ==
    IF phase = "refused"
    THEN Failing("accepted, must be refused", ~Obs.ok)
      \o Failing("files of a refused request", Obs.files = <<>>)
      \o Failing("plots shown for a refused request", Obs.shown = <<>>)
    ELSE IF ~Obs.ok THEN <<"refused a valid request">>
    ELSE Failing("files", Names = files /\ Len(Obs.files) = Cardinality(files))
      \o Failing("same name: joined tags of the sweep and the plot", ~(Mode(req) = "save" /\ Colliding(req)))
      \o Failing("plots left open", Mode(req) \notin {"save", "debug"} \/ Obs.left = 0)
      \o Failing("shown plots", ShownOk)
      \o Failing("content of another plot", Names # files \/ Colliding(req) \/ Mode(req) # "save"
                     \/ \A x \in Selected(req) : Belongs(RecOf(x), x))

(* content *)
Sweep(x) == Data.sweeps[x[1]]
Main(rec) == SelectSeq(rec.drawn, LAMBDA o : o.scalars # "")
Wire(rec, cls) == SelectSeq(rec.drawn, LAMBDA o : o.style = "wireframe" /\ (o.cls = "ImageData") = cls)
Cloud(rec, view) == SelectSeq(rec.drawn, LAMBDA o : o.style = "" /\ o.scalars = "" /\ o.color = view.color)
Colored(rec, c) == SelectSeq(rec.drawn, LAMBDA o : o.style = "" /\ o.scalars = "" /\ o.color = c)
AllVox == 0..(Data.n[1]*Data.n[2]*Data.n[3]-1)
Used == IF req.kind = "viewer" THEN UsedView(Data) ELSE UsedSol(Data)

View(rec, p) ==
    Failing("view: grid", IF p.grid THEN Len(Wire(rec, TRUE)) = 1 /\ ShowsVoxels(Data, Wire(rec, TRUE)[1], AllVox) ELSE Wire(rec, TRUE) = <<>>)
 \o Failing("view: voxels", IF p.geom THEN Len(Wire(rec, FALSE)) = 1 /\ ShowsVoxels(Data, Wire(rec, FALSE)[1], Used) ELSE Wire(rec, FALSE) = <<>>)
 \o Failing("view: points", IF p.point /\ Data.pts # <<>>
        THEN Len(Cloud(rec, [color |-> "cyan"])) = 1 /\ ShowsPoints(Data, Cloud(rec, [color |-> "cyan"])[1], 1..Len(Data.pts))
        ELSE Cloud(rec, [color |-> "cyan"]) = <<>>)

Geometry(rec, p) ==
    IF p.layout = "mesh"
    THEN Failing("mesh: voxels", Len(Colored(rec, "red")) = 1 /\ ShowsVoxels(Data, Colored(rec, "red")[1], Used))
      \o Failing("mesh: reference", Len(Colored(rec, "blue")) = 1 /\
            IF Data.reference = <<>> THEN ShowsVoxels(Data, Colored(rec, "blue")[1], Used)
            ELSE LET o == Colored(rec, "blue")[1] IN Len(o.pos) = Len(Data.reference) /\ \A k \in 1..Len(o.pos) : SamePlace(Data, o.pos[k], Data.reference[k]))
    ELSE IF Len(Main(rec)) # 1 \/ ~ShowsVoxels(Data, Main(rec)[1], Used) THEN <<"geometry: voxels">>
    ELSE IF p.layout = "material"
    THEN Failing("material: color", \A k \in 1..Len(Main(rec)[1].vox) :
            Main(rec)[1].cmap[Main(rec)[1].index[k] + 1] = p.colors[MatCode(Data, Main(rec)[1].vox[k])])
    ELSE IF p.layout = "domain" THEN Failing("domain: code", Codes(Main(rec)[1], Data.dom))
    ELSE Failing("graph: code", Codes(Main(rec)[1], Data.comp))

\* a field: which voxels or points, and the values
Field(rec, p, f) ==
    LET w == Where(Data, f)
        raws == Raws(p, f)
        idx == ShownIdx(p, f, raws)
        want == { w[k] : k \in idx }
    IN  IF idx = {} THEN Failing("field: nothing to be shown", \A k \in 1..Len(Main(rec)) : Main(rec)[k].val = <<>>)
        ELSE IF Len(Main(rec)) # 1 THEN <<"field: not shown">>
        ELSE LET o == Main(rec)[1]
                 keys == IF f.cat = "cloud" THEN o.pt ELSE o.vox
                 place == IF IsArrow(p)
                          THEN o.where = "arrow" /\ Len(keys) = Cardinality(want) /\ Set(keys) = want
                               /\ \A k \in 1..Len(keys) : ClosePlace(Data, o.pos[k], IF f.cat = "cloud" THEN Data.pts[keys[k]] ELSE VoxPos(Data, keys[k]))
                          ELSE IF f.cat = "cloud" THEN ShowsPoints(Data, o, want) ELSE ShowsVoxels(Data, o, want)
             IN  IF ~place THEN <<"field: voxels or points">>
                 ELSE Failing("field: value", Len(o.val) = Len(keys) /\ \A j \in 1..Len(keys) :
                          DNear(o.val[j], Clamped(p, raws[NumOf(w, keys, j)]), Tol(p, f)))
                   \o (IF IsArrow(p) THEN Failing("field: arrow", \A j \in 1..Len(keys) : ArrowOk(Data, p, o.vec[j], f.val[NumOf(w, keys, j)])) ELSE <<>>)

\* limits and scale of the colors, clipping plane of all the values
Colors(rec, p) == Failing("field: limits and scale of the colors", \A k \in 1..Len(Main(rec)) :
    LET o == Main(rec)[k] IN o.log = p.log /\ Len(o.clim) = Len(p.clim) /\ \A j \in 1..Len(p.clim) : DClose(o.clim[j], p.clim[j], "1e-9", "1e-300"))
Clipping(rec, p) == Failing("view: clipping", \A k \in 1..Len(Main(rec)) :
    LET o == Main(rec)[k]
    IN  IF p.clip = "" THEN o.clip = <<>>
        ELSE Len(o.clip) = 3 /\ o.clip[1] = p.clip /\ o.clip[2] = (IF p.invert THEN "True" ELSE "False") /\ DClose(o.clip[3], p.clipval, "1e-9", "1e-300"))

\* solver status: deviation of the power from the final one, residuum histogram
ConvVal(c, k, part) == DMax("2.220446049250313e-16", DDiv(DAbs(DSub((IF k = 1 THEN c.init ELSE c.vec[k-1])[part], c.final[part])), CAbs(c.final)))
LineOk(l, c, part) == Len(l) = Len(c.vec) + 1 /\ \A k \in 1..Len(l) : DClose(l[k], ConvVal(c, k, part), "1e-6", "1e-12")
Convergence(rec, c) == Failing("convergence: active and reactive power", Len(rec.lines) = 2 /\ LineOk(rec.lines[1], c, 1) /\ LineOk(rec.lines[2], c, 2))
\* entries certainly in a bar, and entries in or close to the bar
Clip(x) == DMax("2.220446049250313e-16", x)
Inside(b, x, s) == DLe(DMul(b[1], DAdd("1", s)), Clip(CAbs(x))) /\ DLe(Clip(CAbs(x)), DMul(b[2], DSub("1", s)))
Counted(b, res, s) == DInt(Cardinality({ k \in 1..Len(res) : Inside(b, res[k], s) }))
Residuum(rec, res) ==
    Failing("residuum: number of the unknowns", DEq(DSum([k \in 1..Len(rec.bars) |-> rec.bars[k][3]]), DInt(Len(res))))
 \o Failing("residuum: counts", \A k \in 1..Len(rec.bars) : DLe(Counted(rec.bars[k], res, "1e-6"), rec.bars[k][3])
                                     /\ DLe(rec.bars[k][3], Counted(rec.bars[k], res, "-1e-6")))

Content(x) ==
    LET p == PlotOf(req, x[2]) rec == RecOf(x)
    IN  IF p.layout = "convergence" THEN Convergence(rec, Sweep(x).conv)
        ELSE IF p.layout = "residuum" THEN Residuum(rec, Sweep(x).res)
        ELSE (IF p.layout \in {"domain", "graph", "mesh", "material"} THEN Geometry(rec, p)
              ELSE Field(rec, p, Sweep(x).var[p.var]) \o Colors(rec, p)) \o View(rec, p) \o Clipping(rec, p)

Move == (CheckP \/ Finish) /\ UNCHANGED <<id, bad, verdict>>
\* the order of the drawing does not matter for the judgement
DrawAll ==
    /\ phase = "draw" /\ todo # {}
    /\ IF \A x \in todo : PlotOf(req, x[2]).works THEN open' = todo /\ todo' = {} /\ UNCHANGED phase
       ELSE phase' = "refused" /\ UNCHANGED <<open, todo>>
    /\ UNCHANGED <<req, files, shown, id, bad, verdict>>
Judge == /\ (phase = "refused" \/ phase = "done") /\ verdict = ""
         /\ \E b \in { Selection \o (IF phase = "done" /\ Trace[id].content /\ Obs.ok /\ Names = files /\ ~Colliding(req)
                                     THEN FlattenSeq(SetToSeq({ Content(x) : x \in Selected(req) })) ELSE <<>>) } :
               verdict' = ToJson([id |-> id, end |-> req.kind \o " " \o Mode(req) \o " " \o phase, why |-> "", bad |-> SetToSeq(Set(b))])
         /\ PrintT("VERDICT " \o verdict') /\ UNCHANGED <<pvars, id, bad>>
Next == Move \/ DrawAll \/ Judge
=============================================================================
