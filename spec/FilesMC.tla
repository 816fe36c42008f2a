-------------------------------- MODULE FilesMC --------------------------------
EXTENDS Files, TLC, Json
VARIABLES disk, last
vars == <<disk, last>>
Blank == [op |-> "", via |-> "call", geometry |-> "", voxel |-> "", problem |-> "", tolerance |-> "", solution |-> "", viewer |-> "", plotter |-> "",
          tags |-> [all |-> TRUE, list |-> <<>>], sweeps |-> [all |-> TRUE, list |-> <<>>], mode |-> "debug", folder |-> "", file |-> "", content |-> None,
          argv |-> <<>>, good |-> FALSE]
Empty == [f \in Names |-> None]

(* all histories with one file per kind: invariants *)
Small == [geo |-> {None, Garbage, C("geometry", <<"gm">>), C("geometry", <<"gx">>), C("geometry", <<"g1">>), C("geometry", <<"g2">>)},
          vox |-> {None, Cut}, prob |-> {None, C("problem", <<"px">>), C("problem", <<"p1">>), C("problem", <<"p2">>)}, tol |-> {None, C("tolerance", <<"tx">>), C("tolerance", <<"t1">>)}]
Init == disk = Empty /\ last = Blank
Put(f, c) == [Blank EXCEPT !.op = "put", !.file = f, !.content = c]
Mesh == [Blank EXCEPT !.op = "mesher", !.geometry = "geo.yaml", !.voxel = "vox.pck"]
Solve == [Blank EXCEPT !.op = "solver", !.voxel = "vox.pck", !.problem = "prob.yaml", !.tolerance = "tol.yaml", !.solution = "sol.pck"]
Next == \E e \in {Put("geo.yaml", c) : c \in Small.geo} \cup {Put("vox.pck", c) : c \in Small.vox} \cup {Put("prob.yaml", c) : c \in Small.prob}
                \cup {Put("tol.yaml", c) : c \in Small.tol} \cup {Mesh, Solve} :
            disk' = After(disk, e) /\ last' = e
\* what is on the disk was made by a step which works
FilesInv == /\ disk["vox.pck"].kind \in {"none", "cut", "voxel"}
            /\ disk["vox.pck"].kind = "voxel" => ~MeshFails(disk["vox.pck"].of[1]) /\ disk["vox.pck"].of[1] \notin Malformed
            /\ disk["sol.pck"].kind = "solution" => LET o == disk["sol.pck"].of IN Len(o) = 3 /\ ~SolveFails(o[1], o[2], o[3]) /\ ToSet(o) \cap Malformed = {}
\* a run changes at most its output, and only if it succeeds
FilesStep == [][ LET e == last' IN e.op \in Runs =>
                   /\ \A f \in Names : disk'[f] # disk[f] => f = Output(e)
                   /\ disk' # disk => Succeeds(disk, e)
                   /\ Succeeds(disk, e) /\ e.op \in {"mesher", "solver"} => disk'[Output(e)] = Result(disk, e) ]_vars

(* family: single runs on all kinds of files *)
Vias == {"call", "long", "short"}
Sel(all, list) == [all |-> all, list |-> list]
Req(puts, e) == PrintT("REQ " \o ToJson([steps |-> SelectSeq(puts, LAMBDA x : x.content # None) \o <<e>>]))
Mesher == \A g \in {"geo.yaml", "geo.json", "geo.gz", "geo.txt"}, v \in {"vox.pck", "vox.json", "vox.gz", "vox.txt", "none/out.pck", "dir.pck", "dir.json"}, via \in Vias,
             c \in {None, Garbage, C("problem", <<"p1">>)} \cup { C("geometry", <<x>>) : x \in {"gm", "gx", "g1", "g2", "g3", "g4"} } :
          \A o \in (IF Place(v) = "ok" /\ Ext(v) # "txt" THEN {None, Garbage, C("voxel", <<"g2">>)} ELSE {None}) :
            Req(<<Put(g, c), Put(v, o)>>, [Blank EXCEPT !.op = "mesher", !.via = via, !.geometry = g, !.voxel = v])
VoxC == {None, Garbage, Cut, C("geometry", <<"g1">>)} \cup { C("voxel", <<x>>) : x \in {"vm", "g1", "g2"} }
Solver == \A v \in {"vox.pck", "vox.json", "vox.gz"}, p \in {"prob.yaml", "prob.json"}, s \in {"sol.pck", "sol.json", "sol.gz", "sol.txt", "none/out.pck", "dir.pck"}, via \in Vias,
             vc \in VoxC, pc \in {None, Garbage} \cup { C("problem", <<x>>) : x \in {"pm", "px", "p1", "p2"} },
             tc \in {None, Garbage} \cup { C("tolerance", <<x>>) : x \in {"tx", "t1", "t5"} } :
          \A o \in (IF Place(s) = "ok" /\ Ext(s) # "txt" THEN {None, C("solution", <<"g2", "p1", "t1">>)} ELSE {None}) :
            LET t == IF p = "prob.yaml" THEN "tol.gz" ELSE "tol.yaml"
            IN (vc.kind = "geometry" => v = "vox.json") =>
               Req(<<Put(v, vc), Put(p, pc), Put(t, tc), Put(s, o)>>,
                   [Blank EXCEPT !.op = "solver", !.via = via, !.voxel = v, !.problem = p, !.tolerance = t, !.solution = s])
Viewer == \A v \in {"vox.pck", "vox.json", "vox.gz"}, w \in {"view.yaml", "view.json"}, via \in Vias, m \in {<<"debug", "">>, <<"save", "">>, <<"save", "out">>},
             vc \in VoxC \cup { C("voxel", <<x>>) : x \in {"g3", "g4"} },
             wc \in {None, Garbage} \cup { C("viewer", <<x>>) : x \in {"wm", "w1"} }, tags \in {Sel(TRUE, <<>>), Sel(FALSE, <<"b">>), Sel(FALSE, <<"a", "zz">>)} :
            (vc.kind = "geometry" => v = "vox.json") =>
            Req(<<Put(v, vc), Put(w, wc)>>, [Blank EXCEPT !.op = "viewer", !.via = via, !.voxel = v, !.viewer = w, !.tags = tags, !.mode = m[1], !.folder = m[2]])
Plotter == \A s \in {"sol.pck", "sol.json", "sol.gz"}, w \in {"plot.yaml", "plot.json"}, via \in Vias, m \in {<<"debug", "">>, <<"save", "">>, <<"save", "out">>},
              sc \in {None, Garbage, Cut} \cup {C("solution", <<"sm">>), C("solution", <<"g1", "p2", "t1">>), C("solution", <<"g2", "p1", "t5">>)},
              wc \in {None, Garbage} \cup { C("plotter", <<x>>) : x \in {"qm", "q1"} }, tags \in {Sel(TRUE, <<>>), Sel(FALSE, <<"b">>), Sel(FALSE, <<"zz">>)},
              sweeps \in {Sel(TRUE, <<>>), Sel(FALSE, <<"ac">>), Sel(FALSE, <<"dc", "zz">>)} :
            Req(<<Put(s, sc), Put(w, wc)>>, [Blank EXCEPT !.op = "plotter", !.via = via, !.solution = s, !.plotter = w, !.tags = tags, !.sweeps = sweeps,
                                                          !.mode = m[1], !.folder = m[2]])
(* usage of the command line: everything required is given, or something is missing, unknown, or invalid *)
Full(c) == CASE c = "mesher" -> << <<"--geometry", "geo.yaml">>, <<"--voxel", "vox.pck">> >>
             [] c = "solver" -> << <<"--voxel", "vox.pck">>, <<"--problem", "prob.yaml">>, <<"--tolerance", "tol.yaml">>, <<"--solution", "sol.pck">> >>
             [] c = "viewer" -> << <<"--voxel", "vox.pck">>, <<"--viewer", "view.yaml">>, <<"--plot_mode", "debug">> >>
             [] c = "plotter" -> << <<"--solution", "sol.pck">>, <<"--plotter", "plot.yaml">>, <<"--plot_mode", "debug">> >>
Usage(argv, good) == Req(<<Put("geo.yaml", C("geometry", <<"g1">>)), Put("vox.pck", C("voxel", <<"g1">>)), Put("prob.yaml", C("problem", <<"p1">>)),
                           Put("tol.yaml", C("tolerance", <<"t1">>)), Put("sol.pck", C("solution", <<"g2", "p1", "t1">>)),
                           Put("view.yaml", C("viewer", <<"w1">>)), Put("plot.yaml", C("plotter", <<"q1">>))>>,
                         [Blank EXCEPT !.op = "usage", !.via = "long", !.argv = argv, !.good = good])
Usages ==
    /\ \A x \in {<<"--version">>, <<"-v">>, <<"--help">>, <<"-h">>, <<"mesher", "--help">>, <<"solver", "-h">>, <<"viewer", "-h">>, <<"plotter", "-h">>, <<"examples", "-h">>} : Usage(x, TRUE)
    /\ \A x \in {<<>>, <<"unknown">>, <<"--unknown">>, <<"-q">>, <<"mesher">>, <<"examples">>, <<"documentation">>} : Usage(x, FALSE)
    /\ \A c \in Runs : LET f == Full(c) IN
         \A k \in 1..Len(f) :
            /\ (f[k][1] # "--plot_mode") => Usage(<<c>> \o FlattenSeq(RemoveAt(f, k)), FALSE)
            /\ Usage(<<c>> \o FlattenSeq(RemoveAt(f, k)) \o <<f[k][1]>>, FALSE)
            /\ Usage(<<c, "--wrong", "x">> \o FlattenSeq(f), FALSE)
            /\ Usage(<<c, "positional">> \o FlattenSeq(f), FALSE)
            /\ Usage(<<c>> \o FlattenSeq(f) \o <<"--plot_mode", "other">>, FALSE)
FamNext == /\ last.op = "" /\ disk' = disk /\ last' = [Blank EXCEPT !.op = "done"]
           /\ Mesher /\ Solver /\ Viewer /\ Plotter /\ Usages
=============================================================================
