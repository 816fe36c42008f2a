-------------------------------- MODULE Formats --------------------------------
(* Documented formats of the inputs (W02) and their deviations.                   *)
(* A document is a tree of nodes:                                                 *)
(*   [t |-> "null"], [t |-> "bool"], [t |-> "any"] (not looked at),               *)
(*   [t |-> "int", v], [t |-> "num", v] (decimal), [t |-> "text", v],             *)
(*   [t |-> "arr", v] (sequence), [t |-> "obj", k (names), v (nodes)]             *)
(* The verdict is "ok", "bad", or "open" (neither acceptance nor refusal is       *)
(* promised).                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Dec

(* ---- kinds of values ---- *)
Any1 == [k |-> "any"]
Bool == [k |-> "bool"]
Text == [k |-> "text"]
Real == [k |-> "num", lo |-> "", strict |-> FALSE]
NonNeg == [k |-> "num", lo |-> "0", strict |-> FALSE]
Pos == [k |-> "num", lo |-> "0", strict |-> TRUE]
Count(n) == [k |-> "int", lo |-> n]
Integer == [k |-> "int", lo |-> -1000000]
Enum(s) == [k |-> "enum", s |-> s]
Arr(a, b, item) == [k |-> "arr", lo |-> a, hi |-> b, item |-> item]
List(a, item) == Arr(a, 1000000, item)
Map(a, item) == [k |-> "map", lo |-> a, item |-> item]
Opt(x) == [k |-> "opt", item |-> x]
Rec(f) == [k |-> "rec", f |-> f, maybe |-> <<>>]
Maybe(f) == [k |-> "rec", f |-> <<>>, maybe |-> f]
Value == [k |-> "value"]                       \* real number or array, the shape is decided with the voxels
Case(f, on, by) == [k |-> "case", f |-> f, on |-> on, by |-> by]   \* fields f, and by[text of the field on]
Some(x) == [k |-> "some", x |-> x]             \* object with the fields of at least one of the sets, values are Value

(* ---- geometry ---- *)
Point == [check_cloud |-> Bool, full_cloud |-> Bool, pts_cloud |-> List(0, Arr(3, 3, Real))]
Resampling == [use_reduce |-> Bool, use_resample |-> Bool, resampling_factor |-> Arr(3, 3, Count(1))]
Conflict == [resolve_rules |-> Bool, resolve_random |-> Bool,
             conflict_rules |-> List(0, Rec([domain_resolve |-> List(1, Text), domain_keep |-> List(1, Text)]))]
Group == Map(0, Rec([domain_group |-> List(1, List(1, Text)), connected |-> Bool]))
Voxel == Rec([param |-> Rec([n |-> Arr(3, 3, Count(1)), d |-> Arr(3, 3, Pos), c |-> Arr(3, 3, Real)]),
              domain_index |-> Map(1, List(0, Count(0)))])
Coord == List(1, Arr(2, 2, Real))
Shape == Case([shape_layer |-> List(1, Text), shape_operation |-> Enum({"add", "sub"})], "shape_type",
    [pad |-> [shape_data |-> Rec([diameter |-> Pos, coord |-> Coord])],
     trace |-> [shape_data |-> Rec([width |-> Pos, coord |-> Coord])],
     polygon |-> [shape_data |-> Rec([buffer |-> Opt(NonNeg), coord_shell |-> Coord, coord_holes |-> List(0, Coord)])]])
Shapes == Rec([param |-> Rec([dx |-> Pos, dy |-> Pos, dz |-> Pos, cz |-> Opt(Real), simplify |-> Opt(NonNeg), construct |-> Opt(NonNeg),
                              xy_min |-> Opt(Arr(2, 2, Real)), xy_max |-> Opt(Arr(2, 2, Real))]),
               layer_stack |-> List(1, Rec([n_layer |-> Count(1), tag_layer |-> Text])),
               geometry_shape |-> Map(1, List(1, Shape))])
Png == Rec([param |-> Rec([d |-> Arr(3, 3, Pos), c |-> Arr(3, 3, Real), size |-> Arr(2, 2, Count(1))]),
            domain_color |-> Map(1, List(1, Arr(4, 4, Count(0)))),
            layer_stack |-> List(1, Rec([n_layer |-> Count(1), filename_list |-> List(1, Text)]))])
Stl == Rec([param |-> Rec([d |-> Arr(3, 3, Pos), xyz_min |-> Opt(Arr(3, 3, Real)), xyz_max |-> Opt(Arr(3, 3, Real))]),
            domain_stl |-> Map(1, List(1, Rec([scale |-> Pos, offset |-> Arr(3, 3, Real), filename |-> Text])))])
Geometry == Case([data_point |-> Rec(Point), data_resampling |-> Rec(Resampling), data_conflict |-> Rec(Conflict),
                  data_integrity |-> Rec([domain_connected |-> Group, domain_adjacent |-> Group])], "mesh_type",
    [voxel |-> [data_voxelize |-> Voxel], shape |-> [data_voxelize |-> Shapes], png |-> [data_voxelize |-> Png], stl |-> [data_voxelize |-> Stl]])

(* ---- problem ---- *)
Problem == Rec([
    material_def |-> Map(1, Rec([domain_list |-> List(1, Text), material_type |-> Enum({"electric", "magnetic", "electromagnetic"}),
                                 orientation_type |-> Enum({"isotropic", "anisotropic"}), var_type |-> Enum({"lumped", "distributed"})])),
    source_def |-> Map(1, Rec([domain_list |-> List(1, Text), source_type |-> Enum({"current", "voltage"}), var_type |-> Enum({"lumped", "distributed"})])),
    sweep_solver |-> Map(1, Rec([init |-> Opt(Text), param |-> Rec([
        freq |-> NonNeg,
        material_val |-> Map(0, Some({{"rho_re", "rho_im"}, {"chi_re", "chi_im"}})),
        source_val |-> Map(0, Some({{"I_re", "I_im", "Y_re", "Y_im"}, {"V_re", "V_im", "Z_re", "Z_im"}}))])]))])

(* ---- tolerance ---- *)
Iter == Rec([solver |-> Enum({"gmres", "gcrot"}), n_inner |-> Count(0), n_outer |-> Count(0), rel_tol |-> NonNeg, abs_tol |-> NonNeg])
Tolerance == Rec([
    parallel_sweep |-> Rec([n_jobs |-> Integer, n_threads |-> Opt(Integer)]),
    integral_simplify |-> NonNeg, biot_savart |-> Enum({"face", "voxel"}), mult_type |-> Enum({"fft", "direct"}),
    fft_options |-> Rec([matrix_split |-> Bool, library |-> Enum({"NumPy", "SciPy", "MKL", "FFTW", "CuPy"}), scipy_worker |-> Integer,
                         fftw_thread |-> Integer, fftw_timeout |-> Opt(NonNeg), fftw_byte_align |-> Opt(Count(0))]),
    factorization_options |-> Rec([library |-> Enum({"SuperLU", "PARDISO", "PyAMG"}),
        pyamg_options |-> Rec([tol |-> NonNeg, solver |-> Enum({"adapt", "root"}), krylov |-> Opt(Enum({"gmres", "fgmres"}))]),
        pardiso_options |-> Rec([thread_pardiso |-> Opt(Integer), thread_mkl |-> Opt(Integer)])]),
    solver_options |-> Rec([coupling |-> Enum({"direct", "segregated"}),
        tolerance_options |-> Rec([ignore_status |-> Bool, ignore_res |-> Bool, rel_tol |-> NonNeg, abs_tol |-> NonNeg]),
        power_options |-> Rec([stop |-> Bool, n_min |-> Count(0), n_cmp |-> Count(0), rel_tol |-> NonNeg, abs_tol |-> NonNeg]),
        direct_options |-> Iter,
        segregated_options |-> Rec([relax_electric |-> NonNeg, relax_magnetic |-> NonNeg, n_min |-> Count(0), n_max |-> Count(0),
            rel_tol |-> NonNeg, abs_tol |-> NonNeg, iter_electric_options |-> Iter, iter_magnetic_options |-> Iter])]),
    condition_options |-> Rec([check |-> Bool, tolerance_electric |-> NonNeg, tolerance_magnetic |-> NonNeg,
        norm_options |-> Rec([t_accuracy |-> Count(0), n_iter_max |-> Count(0)])])])

(* ---- plots ---- *)
Size == Opt(Arr(2, 2, Count(0)))
Window == Rec([show_menu |-> Bool, image_size |-> Size, window_size |-> Size, notebook_size |-> Size])
Options3 == Rec([
    plot_clip |-> Rec([clip_plot |-> Bool, clip_invert |-> Bool, clip_axis |-> Enum({"x", "y", "z"}), clip_value |-> Real]),
    plot_theme |-> Rec([text_color |-> Text, title_font |-> Count(0), colorbar_font |-> Count(0), colorbar_size |-> Count(0), colorbar_plot |-> Bool,
                        background_color |-> Text, axis_add |-> Bool, axis_size |-> Count(0)]),
    plot_view |-> Rec([grid_plot |-> Bool, grid_thickness |-> NonNeg, grid_color |-> Text, grid_opacity |-> NonNeg,
                       geom_plot |-> Bool, geom_thickness |-> NonNeg, geom_color |-> Text, geom_opacity |-> NonNeg,
                       point_plot |-> Bool, point_color |-> Text, point_size |-> NonNeg, point_opacity |-> NonNeg,
                       camera_roll |-> Opt(NonNeg), camera_azimuth |-> Opt(NonNeg), camera_elevation |-> Opt(NonNeg)])])
Options2 == Rec([style |-> Text, legend |-> Text, font |-> Count(0)])
In3(data) == [framework |-> Enum({"pyvista"}), data_options |-> Options3, data_plot |-> Rec(data)]
In2(data) == [framework |-> Enum({"matplotlib"}), data_options |-> Options2, data_plot |-> Rec(data)]
Coded == [title |-> Opt(Text), colormap |-> Text, opacity |-> NonNeg]
Shared == [title |-> Text, data_window |-> Window]
Viewer == Map(0, Case(Shared, "layout", [
    domain |-> In3(Coded), graph |-> In3(Coded),
    mesh |-> In3([title |-> Opt(Text), color_voxel |-> Text, color_reference |-> Text, opacity_voxel |-> NonNeg, opacity_reference |-> NonNeg])]))
Limits == Opt(Arr(2, 2, Real))
Norm == [title |-> Opt(Text), legend |-> Opt(Text), var |-> Text, log |-> Bool, color_lim |-> Limits, filter_lim |-> Limits, clamp_lim |-> Limits,
         scale |-> Real, point_size |-> NonNeg]
Phasor == [title |-> Opt(Text), legend |-> Opt(Text), var |-> Text, log |-> Bool, color_lim |-> Limits, filter_lim |-> Limits, clamp_lim |-> Limits,
           scale |-> Real, point_size |-> NonNeg, phase |-> Real]
Arrow == [title |-> Opt(Text), legend |-> Opt(Text), var |-> Text, log |-> Bool, color_lim |-> Limits, filter_lim |-> Limits, clamp_lim |-> Limits,
          scale |-> Real, phase |-> Real, arrow_threshold |-> NonNeg, arrow_scale |-> NonNeg]
Plotter == Map(0, Case(Shared, "layout", [
    material |-> In3([title |-> Opt(Text), color_electric |-> Text, color_magnetic |-> Text, color_electromagnetic |-> Text,
                      color_current_source |-> Text, color_voltage_source |-> Text]),
    norm_voxel |-> In3(Norm), norm_point |-> In3(Norm), phasor_voxel |-> In3(Phasor), phasor_point |-> In3(Phasor),
    arrow_voxel |-> In3(Arrow), arrow_point |-> In3(Arrow),
    convergence |-> In2([color_active |-> Text, color_reactive |-> Text, marker |-> NonNeg, width |-> NonNeg]),
    residuum |-> In2([bar_color |-> Text, edge_color |-> Text, tol_bins |-> NonNeg, n_bins |-> Count(0)])]))

(* ---- options of the viewer and the plotter, results of the steps ---- *)
Modes == Opt(Enum({"qt", "nb", "save", "debug"}))
ViewerOptions == Maybe([tag_plot |-> Opt(List(0, Enum({"a", "b"}))), plot_mode |-> Modes, folder |-> Opt(Text), name |-> Opt(Text)])
PlotterOptions == Maybe([tag_plot |-> Opt(List(0, Enum({"a", "b"}))), tag_sweep |-> Opt(List(0, Enum({"s"}))),
                         plot_mode |-> Modes, folder |-> Opt(Text), name |-> Opt(Text)])
VoxelData == Rec([date |-> Any1, duration |-> Any1, seconds |-> Any1, status |-> Any1, data_geom |-> Any1])
SolutionData == Rec([date |-> Any1, duration |-> Any1, seconds |-> Any1, status |-> Any1, data_init |-> Any1, data_sweep |-> Any1])

Format == [geometry |-> Geometry, problem |-> Problem, tolerance |-> Tolerance, viewer |-> Viewer, plotter |-> Plotter,
           viewer_options |-> ViewerOptions, plotter_options |-> PlotterOptions,
           voxel_solver |-> VoxelData, voxel_viewer |-> VoxelData, solution |-> SolutionData]

(* ---- verdict on a document ---- *)
All(s) == IF "bad" \in s THEN "bad" ELSE IF "open" \in s THEN "open" ELSE "ok"
Has(x, f) == \E j \in 1..Len(x.k) : x.k[j] = f
At(x, f) == x.v[CHOOSE j \in 1..Len(x.k) : x.k[j] = f]
If(c) == IF c THEN "ok" ELSE "bad"
Triple(x) == x.t = "arr" /\ (IF x.t = "arr" THEN Len(x.v) = 3 /\ \A j \in 1..Len(x.v) : x.v[j].t = "num" ELSE FALSE)
RECURSIVE Verdict(_, _)
Fields(f, x) == All({ IF Has(x, a) THEN Verdict(f[a], At(x, a)) ELSE "bad" : a \in DOMAIN f })
Verdict(y, x) ==
    CASE y.k = "any" -> IF x.t = "any" THEN "ok" ELSE "open"
      [] y.k = "opt" -> IF x.t = "null" THEN "ok" ELSE Verdict(y.item, x)
      [] y.k = "bool" -> If(x.t = "bool")
      [] y.k = "text" -> If(x.t = "text" /\ x.v # "")
      [] y.k = "enum" -> If(x.t = "text" /\ x.v \in y.s)
      [] y.k = "int" -> If(x.t = "int" /\ x.v >= y.lo)
      [] y.k = "num" -> IF x.t # "num" THEN "bad" ELSE IF ~DNum(x.v) THEN "open" ELSE IF y.lo = "" THEN "ok"
                        ELSE IF DLt(x.v, y.lo) THEN "bad" ELSE IF y.strict /\ DEq(x.v, y.lo) THEN "open" ELSE "ok"
      [] y.k = "value" -> IF x.t = "num" THEN "ok" ELSE IF x.t # "arr" THEN "bad"
                          ELSE IF Len(x.v) > 0 /\ ((\A j \in 1..Len(x.v) : x.v[j].t = "num") \/ (\A j \in 1..Len(x.v) : Triple(x.v[j]))) THEN "ok" ELSE "open"
      [] y.k = "arr" -> IF x.t # "arr" THEN "bad" ELSE IF Len(x.v) < y.lo \/ Len(x.v) > y.hi THEN "bad"
                        ELSE All({ Verdict(y.item, x.v[j]) : j \in 1..Len(x.v) })
      [] y.k = "map" -> IF x.t # "obj" THEN "bad" ELSE IF Len(x.v) < y.lo THEN "bad"
                        ELSE All({ Verdict(y.item, x.v[j]) : j \in 1..Len(x.v) })
      [] y.k = "rec" -> IF x.t # "obj" THEN "bad"
                        ELSE All({Fields(y.f, x)}
                              \cup { IF Has(x, a) THEN Verdict(y.maybe[a], At(x, a)) ELSE "ok" : a \in DOMAIN y.maybe }
                              \cup { IF x.k[j] \in (DOMAIN y.f \cup DOMAIN y.maybe) THEN "ok" ELSE "open" : j \in 1..Len(x.k) })
      [] y.k = "case" -> IF x.t # "obj" THEN "bad" ELSE IF ~Has(x, y.on) THEN "bad"
                         ELSE IF At(x, y.on).t # "text" THEN "bad" ELSE IF At(x, y.on).v \notin DOMAIN y.by THEN "bad"
                         ELSE LET g == y.by[At(x, y.on).v]
                              IN All({Fields(y.f, x), Fields(g, x)}
                                 \cup { IF x.k[j] \in (DOMAIN y.f \cup DOMAIN g \cup {y.on}) THEN "ok" ELSE "open" : j \in 1..Len(x.k) })
      [] y.k = "some" -> IF x.t # "obj" THEN "bad"
                         ELSE IF ~(\E s \in y.x : \A a \in s : Has(x, a)) THEN "bad"
                         ELSE All({ Verdict(Value, x.v[j]) : j \in 1..Len(x.v) }
                              \cup { IF \E s \in y.x : x.k[j] \in s THEN "ok" ELSE "open" : j \in 1..Len(x.k) })

(* ---- deviations: the node at a path (positions of the children) is changed ---- *)
Kids(x) == IF x.t \in {"arr", "obj"} THEN Len(x.v) ELSE 0
RECURSIVE Paths(_)
Paths(x) == {<<>>} \cup UNION { { <<j>> \o p : p \in Paths(x.v[j]) } : j \in 1..Kids(x) }
RECURSIVE Node(_, _)
Node(x, p) == IF p = <<>> THEN x ELSE Node(x.v[p[1]], Tail(p))
RECURSIVE Put(_, _, _)
Put(x, p, n) == IF p = <<>> THEN n ELSE [x EXCEPT !.v[p[1]] = Put(x.v[p[1]], Tail(p), n)]
Drop(x, j) == IF x.t = "arr" THEN [x EXCEPT !.v = RemoveAt(x.v, j)] ELSE [x EXCEPT !.v = RemoveAt(x.v, j), !.k = RemoveAt(x.k, j)]

New(op) ==
    CASE op = "null" -> [t |-> "null"]
      [] op = "bool" -> [t |-> "bool"]
      [] op = "int" -> [t |-> "int", v |-> 2]
      [] op = "zero" -> [t |-> "int", v |-> 0]
      [] op = "minus" -> [t |-> "int", v |-> -1]
      [] op = "num" -> [t |-> "num", v |-> "2.5"]
      [] op = "whole" -> [t |-> "num", v |-> "2.0"]
      [] op = "zeronum" -> [t |-> "num", v |-> "0.0"]
      [] op = "negative" -> [t |-> "num", v |-> "-0.5"]
      [] op = "text" -> [t |-> "text", v |-> "word"]
      [] op = "digits" -> [t |-> "text", v |-> "2"]
      [] op = "blank" -> [t |-> "text", v |-> ""]
      [] op = "empty" -> [t |-> "arr", v |-> <<>>]
      [] op = "object" -> [t |-> "obj", k |-> <<>>, v |-> <<>>]
Changes == {"null", "bool", "int", "zero", "minus", "num", "whole", "zeronum", "negative", "text", "digits", "blank", "empty", "object"}
\* a deviation is [path, op]; "drop" and "copy" act on the last position of the path
Deviate(x, e) ==
    IF e.op = "drop" THEN LET p == Front(e.path) IN Put(x, p, Drop(Node(x, p), Last(e.path)))
    ELSE IF e.op = "copy" THEN LET p == Front(e.path) n == Node(x, p)
                               IN Put(x, p, [n EXCEPT !.v = Append(@, n.v[Last(e.path)])])
    ELSE IF e.op = "extra" THEN LET n == Node(x, e.path) IN Put(x, e.path, [n EXCEPT !.k = Append(@, "extra"), !.v = Append(@, New("text"))])
    ELSE Put(x, e.path, New(e.op))
Deviations(x) ==
    UNION { { [path |-> p, op |-> c] : c \in Changes }
         \cup (IF p = <<>> THEN {} ELSE {[path |-> p, op |-> "drop"]})
         \cup (IF p = <<>> THEN {} ELSE IF Node(x, Front(p)).t = "arr" THEN {[path |-> p, op |-> "copy"]} ELSE {})
         \cup (IF Node(x, p).t = "obj" THEN {[path |-> p, op |-> "extra"]} ELSE {}) : p \in Paths(x) }
=============================================================================
