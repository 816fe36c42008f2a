--------------------------------- MODULE SymMC ---------------------------------
(* Sequences of transformations of recorded problems: exploration (exhaustive   *)
(* for one transformation, random walks for longer ones), and emission of the   *)
(* transformed problems with the history of the transformations.                *)
EXTENDS Sym, Json, IOUtils

Problems == ndJsonDeserialize(IOEnv.PROBLEMS)
Depth  == IF IOEnv.DEPTH = "1" THEN 1 ELSE IF IOEnv.DEPTH = "2" THEN 2 ELSE 5
Family == IOEnv.FAMILY

VARIABLE id

MCInit == \E k \in 1..Len(Problems) : id = k /\ SymInit(Problems[k], Depth)

HowJson == [how EXCEPT !.vox = [k \in 1..Cardinality(DOMAIN @) |-> @[k-1]], !.live = SetToSeq(@)]

DoMove    == Family = "move" /\ Transform(Move) /\ UNCHANGED id
DoRewrite == Family = "rewrite" /\ Transform(Rewrite) /\ UNCHANGED id
DoScale   == Family = "scale" /\ Transform(Scaling) /\ UNCHANGED id
\* one source at a time, each of them with a factor
DoAlone   == Family = "alone" /\ Transform(IF how.ops = <<>> THEN \E s \in Srcs : Alone(s) ELSE Scaling) /\ UNCHANGED id
DoMixed   == Family = "mixed" /\ Transform(Move \/ Rewrite \/ Scaling) /\ UNCHANGED id

Emit ==
    /\ stage = "again" /\ phase = "integrals" /\ stage' = "end"
    /\ PrintT("REQ " \o ToJson([base |-> id, req |-> req, how |-> HowJson]))
    /\ UNCHANGED <<vars, net0, how, left, id>>

MCStep == Advance /\ UNCHANGED id
MCStore == Store /\ UNCHANGED id
MCAgain == Again /\ (left = 0 \/ Depth < 5) /\ UNCHANGED id
MCNext == MCStep \/ MCStore \/ DoMove \/ DoRewrite \/ DoScale \/ DoMixed \/ DoAlone \/ MCAgain \/ Emit
=============================================================================
