------------------------------ MODULE FormatsTrace ------------------------------
(* Observation: refused (an error), started (the computation has started).        *)
EXTENDS Formats, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Bases == ndJsonDeserialize(IOEnv.BASES)
VARIABLES id, todo, doc, phase, verdict
vars == <<id, todo, doc, phase, verdict>>
Rec1 == Trace[id]
Init == \E j \in 1..Len(Trace) : id = j /\ todo = Trace[j].dev /\ doc = Bases[Trace[j].base].doc /\ phase = "given" /\ verdict = ""
Alter == /\ phase = "given" /\ todo # <<>>
         /\ doc' = Deviate(doc, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<id, phase, verdict>>
Look == /\ phase = "given" /\ todo = <<>>
        /\ phase' = Verdict(Format[Bases[Rec1.base].kind], doc) /\ UNCHANGED <<id, todo, doc, verdict>>
Failing(name, holds) == IF holds THEN <<>> ELSE <<name>>
Bad == IF phase = "bad"
       THEN Failing("accepted, must be refused: format", Rec1.obs.refused)
         \o Failing("computation with malformed input", ~Rec1.obs.started)
       ELSE IF phase = "ok" THEN Failing("refused a well-formed input", Rec1.obs.started)
       ELSE <<>>
Judge == /\ phase # "given" /\ verdict = ""
         /\ verdict' = ToJson([id |-> id, end |-> Bases[Rec1.base].kind \o " " \o phase, why |-> "",
                               bad |-> Bad \o Failing("document", ToJson(doc) = ToJson(Rec1.doc))])
         /\ PrintT("VERDICT " \o verdict') /\ UNCHANGED <<id, todo, doc, phase>>
Next == Alter \/ Look \/ Judge
=============================================================================
