------------------------------- MODULE FormatsMC -------------------------------
(* All single deviations of the base documents.                                   *)
EXTENDS Formats, TLC, Json, IOUtils
Bases == ndJsonDeserialize(IOEnv.BASES)
VARIABLES base, dev, doc, phase
vars == <<base, dev, doc, phase>>
Init == \E b \in 1..Len(Bases) : base = b /\ dev = <<>> /\ doc = Bases[b].doc /\ phase = "given"
Alter ==
    /\ dev = <<>> /\ phase = "given"
    /\ \E e \in Deviations(doc) : dev' = <<e>> /\ doc' = Deviate(doc, e)
    /\ UNCHANGED <<base, phase>>
Look == /\ phase = "given"
        /\ phase' = Verdict(Format[Bases[base].kind], doc)
        /\ PrintT("REQ " \o ToJson([base |-> base, dev |-> dev, say |-> phase']))
        /\ UNCHANGED <<base, dev, doc>>
Next == Alter \/ Look \/ (phase # "given" /\ UNCHANGED vars)
\* the base documents are well-formed, a value of another type never becomes acceptable
FormatsInv ==
    /\ phase = "given" \/ dev # <<>> \/ phase = "ok"
    /\ phase = "ok" /\ dev # <<>> => LET n == Node(Bases[base].doc, dev[1].path)
                                     IN \/ dev[1].op \in {"drop", "copy"}
                                        \/ New(dev[1].op).t = n.t \/ n.t = "null" \/ dev[1].op = "null"
                                        \/ (n.t = "any")
                                        \* material and source values: a number or an array
                                        \/ (Bases[base].kind = "problem" /\ {n.t, New(dev[1].op).t} = {"num", "arr"})
=============================================================================
