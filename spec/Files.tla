---------------------------------- MODULE Files ----------------------------------
(* Runs with files and from the command line (W01).                               *)
(* The disk maps files to contents [kind, of]. A run reads its input files, and    *)
(* either succeeds (the output file gets the result, code 0) or fails (an error or *)
(* a non-zero code, no file changes).                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

(* ---- files: name, extension, and whether the place is a writable file ---- *)
Table == {
    <<"geo.yaml", "yaml", "ok">>, <<"geo.json", "json", "ok">>, <<"geo.gz", "gz", "ok">>, <<"geo.txt", "txt", "ok">>,
    <<"vox.pck", "pck", "ok">>, <<"vox.json", "json", "ok">>, <<"vox.gz", "gz", "ok">>, <<"vox.txt", "txt", "ok">>,
    <<"prob.yaml", "yaml", "ok">>, <<"prob.json", "json", "ok">>, <<"tol.yaml", "yaml", "ok">>, <<"tol.gz", "gz", "ok">>,
    <<"sol.pck", "pck", "ok">>, <<"sol.json", "json", "ok">>, <<"sol.gz", "gz", "ok">>, <<"sol.txt", "txt", "ok">>,
    <<"view.yaml", "yaml", "ok">>, <<"view.json", "json", "ok">>, <<"plot.yaml", "yaml", "ok">>, <<"plot.json", "json", "ok">>,
    <<"none/out.pck", "pck", "nodir">>, <<"dir.pck", "pck", "dir">>, <<"dir.json", "json", "dir">> }
Names == { r[1] : r \in Table }
Ext(f) == (CHOOSE r \in Table : r[1] = f)[2]
Place(f) == (CHOOSE r \in Table : r[1] = f)[3]
ConfigExt == {"yaml", "json", "gz"}
DataExt == {"pck", "json", "gz"}

(* ---- contents ---- *)
C(kind, of) == [kind |-> kind, of |-> of]
None == C("none", <<>>)
Garbage == C("garbage", <<>>)         \* cannot be read
Cut == C("cut", <<>>)                 \* a data file which ends early
Unreadable == {"none", "garbage", "cut"}
\* documents: the malformed ones, and the ones for which the step fails
Malformed == {"gm", "pm", "tx", "wm", "qm", "vm", "sm"}
MeshFails(g) == g = "gx"
SolveFails(g, p, t) == p = "px" \/ (p = "p2" /\ g # "g1") \/ g \notin {"g1", "g2"} \/ t = "tlib"
Tags == {"a", "b"}
Sweeps == {"dc", "ac"}

(* ---- inputs of a run ---- *)
Readable(disk, f, exts) == Place(f) = "ok" /\ Ext(f) \in exts /\ disk[f].kind \notin Unreadable
Is(disk, f, kind, exts) == Readable(disk, f, exts) /\ disk[f].kind = kind /\ disk[f].of[1] \notin Malformed
Inputs(disk, e) ==
    CASE e.op = "mesher" -> Is(disk, e.geometry, "geometry", ConfigExt)
      [] e.op = "solver" -> Is(disk, e.voxel, "voxel", DataExt) /\ Is(disk, e.problem, "problem", ConfigExt) /\ Is(disk, e.tolerance, "tolerance", ConfigExt)
      [] e.op = "viewer" -> Is(disk, e.voxel, "voxel", DataExt) /\ Is(disk, e.viewer, "viewer", ConfigExt)
      [] e.op = "plotter" -> Is(disk, e.solution, "solution", DataExt) /\ Is(disk, e.plotter, "plotter", ConfigExt)
(* ---- the step itself ---- *)
Known(sel, all) == sel.all \/ ToSet(sel.list) \subseteq all
Works(disk, e) ==
    CASE e.op = "mesher" -> ~MeshFails(disk[e.geometry].of[1])
      [] e.op = "solver" -> ~SolveFails(disk[e.voxel].of[1], disk[e.problem].of[1], disk[e.tolerance].of[1])
      [] e.op = "viewer" -> Known(e.tags, Tags)
      [] e.op = "plotter" -> Known(e.tags, Tags) /\ Known(e.sweeps, Sweeps)
Output(e) == CASE e.op = "mesher" -> e.voxel [] e.op = "solver" -> e.solution [] OTHER -> ""
CanWrite(e) == e.op \notin {"mesher", "solver"} \/ (Place(Output(e)) = "ok" /\ Ext(Output(e)) \in DataExt)
Result(disk, e) == IF e.op = "mesher" THEN C("voxel", disk[e.geometry].of)
                   ELSE C("solution", disk[e.voxel].of \o disk[e.problem].of \o disk[e.tolerance].of)

Runs == {"mesher", "solver", "viewer", "plotter"}
Succeeds(disk, e) == IF e.op \in Runs THEN IF Inputs(disk, e) THEN Works(disk, e) /\ CanWrite(e) ELSE FALSE
                     ELSE IF e.op = "usage" THEN e.good ELSE TRUE
After(disk, e) ==
    CASE e.op = "put" -> [disk EXCEPT ![e.file] = e.content]
      [] e.op \in {"mesher", "solver"} -> IF Succeeds(disk, e) THEN [disk EXCEPT ![Output(e)] = Result(disk, e)] ELSE disk
      [] OTHER -> disk

(* ---- screenshots ---- *)
Chosen(sel, all) == IF sel.all THEN all ELSE ToSet(sel.list)
Folder(e) == IF e.folder = "" THEN "" ELSE e.folder \o "/"
Shots(disk, e) ==
    IF e.op \notin {"viewer", "plotter"} THEN {}
    ELSE IF e.mode # "save" \/ ~Succeeds(disk, e) THEN {}
    ELSE IF e.op = "viewer" THEN { Folder(e) \o "pypeec_" \o t \o ".png" : t \in Chosen(e.tags, Tags) }
    ELSE { Folder(e) \o "pypeec_" \o s \o "_" \o t \o ".png" : s \in Chosen(e.sweeps, Sweeps), t \in Chosen(e.tags, Tags) }
=============================================================================
