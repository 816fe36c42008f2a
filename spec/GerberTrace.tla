----------------------------- MODULE GerberTrace -----------------------------
(* Recorded conversions: the pictures written by the (stand-in) tools, the other files of the folder, and the outcome. *)
EXTENDS Gerber, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, verdict
Obs == Trace[id].obs
Init == \E j \in 1..Len(Trace) : id = j /\ verdict = "" /\ InitG(Trace[j].req)
Has(t) == t \in DOMAIN Obs.pics
Dpi == IF Has(Layer.tag) /\ DpiOk(Obs.pics[Layer.tag].dpi) THEN Obs.pics[Layer.tag].dpi
       ELSE CHOOSE n \in 0..200000 : DpiOk(n)
Border == IF Has(Layer.tag) /\ BorderOk(Obs.pics[Layer.tag].border) THEN Obs.pics[Layer.tag].border ELSE DMul("100", req.margin)
Pct == IF Has(Layer.tag) /\ Len(Obs.pics[Layer.tag].ops) > 0 /\ (\E p \in {Obs.pics[Layer.tag].ops[Len(Obs.pics[Layer.tag].ops)]} : p[1] = "sample" /\ PctOk(p[2]))
       THEN Obs.pics[Layer.tag].ops[Len(Obs.pics[Layer.tag].ops)][2] ELSE DDiv("100", req.over)
Stage == /\ \/ Project \/ (phase = "render" /\ \E n \in {Dpi} : Render(n, Border)) \/ Trim \/ (phase = "sample" /\ Sample(Pct)) \/ Clean \/ Finish
         /\ UNCHANGED <<id, verdict>>
Failing(name, holds) == IF holds THEN <<>> ELSE <<name>>
Same(t, f(_)) == Has(t) => f(Obs.pics[t]) = f(pics[t])
Clauses ==
    IF phase = "refused" /\ Obs.ok THEN << "accepted, must be refused: " \o why >>
    ELSE IF phase = "done" /\ ~Obs.ok THEN << "refused a valid request" >>
    ELSE Failing("images", phase = "refused" \/ DOMAIN Obs.pics = DOMAIN pics)
      \o Failing("content of the image", \A t \in DOMAIN pics : Same(t, LAMBDA x : x.img))
      \o Failing("resolution", \A t \in DOMAIN pics : Same(t, LAMBDA x : x.dpi))
      \o Failing("border", \A t \in DOMAIN pics : Same(t, LAMBDA x : x.border))
      \o Failing("trimmed and sampled", \A t \in DOMAIN pics : Same(t, LAMBDA x : x.ops))
      \o Failing("image of a refused layer", phase = "refused" /\ Layer.tag \notin DOMAIN pics => ~Has(Layer.tag))
      \o Failing("files left", phase = "refused" \/ Obs.left = 0)
      \o Failing("artwork or input modified", Obs.kept)
Judge == /\ Final /\ verdict = ""
         /\ verdict' = ToJson([id |-> id, end |-> phase, why |-> why, bad |-> Clauses])
         /\ PrintT("VERDICT " \o verdict') /\ UNCHANGED <<gvars, id>>
Next == Stage \/ Judge
=============================================================================
