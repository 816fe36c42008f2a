----------------------------- MODULE ImagesTrace -----------------------------
(* Judgement of the structures delivered for stacks of images (M07). *)
EXTENDS Images, MesherTrace

InitImg == \E k \in 1..Len(Trace) : id = k /\ verdict = "" /\ InitImages(Trace[k].req)
NextImg == \/ (Stack \/ StackEnd) /\ UNCHANGED <<id, verdict>>
           \/ (Stage \/ Judge) /\ UNCHANGED left
=============================================================================
