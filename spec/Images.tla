-------------------------------- MODULE Images --------------------------------
(* Voxel structure defined by a stack of images (M07): the layers are read one *)
(* after the other, then the stages of the mesher follow.                      *)
(*                                                                             *)
(* request (in addition to the one of the mesher):                             *)
(*   size      number of pixels (x, y)                                         *)
(*   colors    domain -> sequence of colors (a color is a string)              *)
(*   layers    sequence of [n_layer, images], from the bottom to the top       *)
(*             image: sequence of rows from the top, row: sequence of colors   *)
(*             from the left                                                   *)
EXTENDS Mesher, TLC

VARIABLE left   \* layers to be read
ivars == <<vars, left>>

Height(r) == FoldLeft(LAMBDA x, y : x + y.n_layer, 0, r.layers)

InitImages(r) ==
    /\ req = r @@ [n |-> <<r.size[1], r.size[2], Height(r)>>, dom |-> [t \in ToSet(r.names) |-> <<>>]]
    /\ phase = "stack" /\ left = r.layers
    /\ n = <<r.size[1], r.size[2], 0>> /\ d = r.d /\ c = r.c
    /\ dom = [t \in ToSet(r.names) |-> {}]
    /\ pts = r.pts /\ todo = <<>> /\ comps = {} /\ why = ""

ImageOk(img) == Len(img) = req.size[2] /\ \A k \in 1..Len(img) : Len(img[k]) = req.size[1]
\* the first row of the image is at the largest y coordinate, its first pixel at the smallest x coordinate
Pixel(img, x, y) == img[req.size[2] - y][x + 1]
Columns(layer, t) == { <<x, y>> \in (0..(req.size[1]-1)) \X (0..(req.size[2]-1)) :
                          \E k \in 1..Len(layer.images) : Pixel(layer.images[k], x, y) \in ToSet(req.colors[t]) }

Stack ==
    /\ phase = "stack" /\ left # <<>>
    /\ LET layer == Head(left)
       IN  IF \A k \in 1..Len(layer.images) : ImageOk(layer.images[k])
           THEN /\ dom' = [t \in DOMAIN dom |-> dom[t] \cup
                              { <<p[1], p[2], z>> : p \in Columns(layer, t), z \in n[3]..(n[3]+layer.n_layer-1) }]
                /\ n' = [n EXCEPT ![3] = @ + layer.n_layer]
                /\ left' = Tail(left)
                /\ UNCHANGED <<req, phase, d, c, pts, todo, comps, why>>
           ELSE Refuse("image size") /\ UNCHANGED left
StackEnd ==
    /\ phase = "stack" /\ left = <<>>
    /\ phase' = "cloud" /\ UNCHANGED <<req, n, d, c, dom, pts, todo, comps, why, left>>

---------------------------------------------------------------------------
\* layer of a position along the stacking axis
LayerOf(z) == CHOOSE k \in 1..Len(req.layers) :
    LET Below(j) == FoldLeft(LAMBDA x, y : x + y.n_layer, 0, SubSeq(req.layers, 1, j))
    IN  Below(k-1) <= z /\ z < Below(k)
\* the content of a voxel is decided by its own layer, column and row only
InvImages == phase = "cloud" =>
    /\ n = req.n
    /\ \A t \in DOMAIN dom : \A x \in 0..(n[1]-1), y \in 0..(n[2]-1), z \in 0..(n[3]-1) :
        <<x, y, z>> \in dom[t] <=>
            \E k \in 1..Len(req.layers[LayerOf(z)].images) : \E j \in 1..Len(req.colors[t]) :
                req.layers[LayerOf(z)].images[k][n[2]-y][x+1] = req.colors[t][j]
=============================================================================
