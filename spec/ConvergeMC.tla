------------------------------ MODULE ConvergeMC ------------------------------
(* Families of problems and options for the iterations; each is emitted once. *)
EXTENDS Converge, Json, IOUtils

VARIABLE sent
Family == IOEnv.FAMILY
Deep == IOEnv.TIER = "thorough"

Stop(on, nmin, ncmp, rel, abs) == [on |-> on, nmin |-> nmin, ncmp |-> ncmp, rel |-> rel, abs |-> abs]
NoStop == Stop(FALSE, 1, 1, "1e-3", "1e-9")
Base == [coupling |-> "segregated", p |-> "2", q |-> "2", s |-> "4", a |-> "1", b |-> "1",
         rhs |-> <<"1", "2", "3">>, guess |-> <<"0", "0", "0">>, script |-> <<>>, stop |-> NoStop,
         relax |-> [e |-> "1", m |-> "1"], inner |-> [rel |-> "1e-6", abs |-> "1e-10", nouter |-> 3],
         seg |-> [rel |-> "1e-3", abs |-> "1e-10", nmin |-> 1, nmax |-> 8],
         direct |-> [rel |-> "1e-3", abs |-> "1e-10", nouter |-> 12],
         tol |-> [nostatus |-> FALSE, nores |-> FALSE, rel |-> "1e-2", abs |-> "1e-9"]]

\* powers chosen freely, the residuum never stops the iterations
Alpha == { <<"0", "0">>, <<"1", "0">>, <<"0", "1.5">> }
Length == IF Deep THEN 6 ELSE 4
Scripts == { [Base EXCEPT !.script = <<<<"9", "9">>>> \o f \o <<<<"8", "-8">>>>,
                          !.stop = Stop(TRUE, nm, nc, rel, abs),
                          !.coupling = cp,
                          !.seg = [rel |-> "1e-14", abs |-> "1e-30", nmin |-> 1, nmax |-> Length],
                          !.direct = [rel |-> "1e-14", abs |-> "1e-30", nouter |-> Length],
                          !.a = "0.9", !.s = "1.5", !.q = "3",
                          !.tol = [nostatus |-> FALSE, nores |-> TRUE, rel |-> "1e-2", abs |-> "1e-9"]] :
             f \in [1..Length -> Alpha], nm \in {1, 4}, nc \in {1, 2, 3}, rel \in {"0.1", "0.7"}, abs \in {"1e-9", "1.2"},
             cp \in (IF Deep THEN {"segregated", "direct"} ELSE {"segregated"}) }

\* the residuum decides
Couplings == { <<"0", "0">>, <<"1", "1">>, <<"0.5", "-1">>, <<"1.5", "1.8">> }
Guesses == { <<"0", "0", "0">>, <<"1", "-1", "2">> }
Segregated == { [Base EXCEPT !.a = c[1], !.b = c[2], !.q = q, !.guess = g,
                             !.relax = [e |-> re, m |-> rm], !.inner.nouter = no,
                             !.seg = [rel |-> rel, abs |-> abs, nmin |-> nm, nmax |-> nx],
                             !.tol = [nostatus |-> ns, nores |-> nr, rel |-> tr, abs |-> "1e-9"]] :
             c \in Couplings, q \in {"2", "3"}, g \in Guesses, re \in {"1", "0.7"}, rm \in (IF Deep THEN {"1", "1.2"} ELSE {"1.2"}),
             no \in {1, 9}, rel \in {"1e-1", "1e-4"}, abs \in (IF Deep THEN {"1e-9", "0.5"} ELSE {"1e-9"}),
             nm \in {1, 4}, nx \in {3, 9}, ns \in BOOLEAN, nr \in BOOLEAN, tr \in {"3e-2", "1e-6"} }

DirectF == { [Base EXCEPT !.coupling = "direct", !.a = c[1], !.b = c[2], !.q = q, !.guess = g, !.rhs = r,
                          !.direct = [rel |-> rel, abs |-> abs, nouter |-> no],
                          !.tol = [nostatus |-> ns, nores |-> nr, rel |-> tr, abs |-> ta]] :
             c \in {<<"0", "0">>, <<"1", "1">>, <<"0.5", "-1">>}, q \in {"2", "3"}, g \in Guesses \cup {<<"0.5", "1", "0.75">>},
             r \in {<<"1", "2", "3">>, <<"0", "0", "0">>, <<"1e-3", "0", "-2e-3">>},
             rel \in {"1e-1", "1e-4"}, abs \in {"1e-9", "0.5"}, no \in {2, 15},
             ns \in BOOLEAN, nr \in BOOLEAN, tr \in {"3e-2", "1e-6"}, ta \in {"1e-9", "0.3"} }

\* both criteria
Mixed == { [Base EXCEPT !.coupling = cp, !.a = c[1], !.b = c[2], !.q = q, !.guess = g,
                        !.seg = [rel |-> rel, abs |-> "1e-9", nmin |-> nm, nmax |-> 9],
                        !.direct = [rel |-> rel, abs |-> "1e-9", nouter |-> 9],
                        !.relax = [e |-> re, m |-> "1"],
                        !.stop = Stop(on, sm, nc, srel, "1e-9"),
                        !.tol = [nostatus |-> FALSE, nores |-> nr, rel |-> "1e-3", abs |-> "1e-9"]] :
             cp \in {"direct", "segregated"}, c \in Couplings \ {<<"1.5", "1.8">>}, q \in (IF Deep THEN {"2", "3"} ELSE {"3"}), g \in Guesses,
             rel \in {"1e-2", "1e-5"}, nm \in {1, 5}, re \in {"1", "0.7"}, on \in BOOLEAN, sm \in {1, 4}, nc \in {1, 2},
             srel \in {"0.2", "1e-3"}, nr \in BOOLEAN }

Requests == CASE Family = "script" -> Scripts [] Family = "segregated" -> Segregated
              [] Family = "direct" -> DirectF [] OTHER -> Mixed

MCInit == \E r \in Requests : InitWith(r) /\ sent = FALSE
Emit == ~sent /\ sent' = TRUE /\ PrintT("REQ " \o ToJson(req)) /\ UNCHANGED vars
DirectStart1 == sent /\ DirectStart /\ UNCHANGED sent
Direct1   == sent /\ Direct /\ UNCHANGED sent
Electric1 == sent /\ Electric /\ UNCHANGED sent
Magnetic1 == sent /\ Magnetic /\ UNCHANGED sent
Assess1   == sent /\ Assess /\ UNCHANGED sent
Report1   == sent /\ Report /\ UNCHANGED sent
MCDone == Final /\ UNCHANGED <<vars, sent>>
MCNext == Emit \/ DirectStart1 \/ Direct1 \/ Electric1 \/ Magnetic1 \/ Assess1 \/ Report1 \/ MCDone
Inv == tie \/ (StopInv /\ StatusInv)
=============================================================================
