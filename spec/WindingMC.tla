------------------------------- MODULE WindingMC -------------------------------
(* Small components: the matrices and excitations are enumerated. *)
EXTENDS Winding, TLC, Json, IOUtils
Deep == IOEnv.TIER = "thorough"
C(re, im) == <<DInt(re), DInt(im)>>
Mats == { << <<C(3, 2)>> >>,
          << <<C(2, 3), C(1, 1)>>, <<C(1, 1), C(2, 3)>> >>,
          << <<C(2, 3), C(-1, 2)>>, <<C(-1, 2), C(4, 5)>> >>,
          << <<C(5, 3), C(1, 1), C(1, 1)>>, <<C(1, 1), C(5, 3), C(1, 1)>>, <<C(1, 1), C(1, 1), C(5, 3)>> >>,
          << <<C(5, 3), C(1, 1), C(-1, 2)>>, <<C(1, 1), C(6, 3), C(0, 1)>>, <<C(-1, 2), C(0, 1), C(4, 7)>> >> }
Curs(n) == IF n = 1 THEN { <<C(0, 0)>>, <<C(1, 0)>>, <<C(1, -2)>> }
           ELSE IF n = 2 THEN { <<C(1, 0), C(0, 0)>>, <<C(0, 0), C(1, 1)>>, <<C(2, 0), C(0, 0)>>, <<C(1, 0), C(0, 1)>>, <<C(0, 1), C(-1, 0)>> }
           ELSE { <<C(1, 0), C(0, 0), C(0, 0)>>, <<C(0, 0), C(1, 0), C(0, 0)>>, <<C(0, 0), C(0, 1), C(1, 0)>>, <<C(1, 1), C(0, 0), C(-1, 0)>> }
Id(n) == [k \in 1..n |-> k]
Invariant(z, p) == \A i, j \in 1..Len(z) : z[p[i]][p[j]] = z[i][j]
Perms(n) == { p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j] }
StageSets(z) == {<<>>} \cup { << <<Id(Len(z)), p>> >> : p \in { q \in Perms(Len(z)) : Invariant(z, q) } }
                \cup { << <<Id(Len(z)), p>>, <<Id(Len(z)), q>> >> : p, q \in { q \in Perms(Len(z)) : Invariant(z, q) /\ q # Id(Len(z)) } }
Name(k) == <<"a", "b", "c", "d">>[k]
Tag(k) == <<"sim_1", "sim_2", "sim_3", "sim_4">>[k]
\* voltages and currents of the sources: shared offset of the potential, part of the current that does not return
Data(z, i, off, f) ==
    LET v == MatVec(z, i)
    IN  [freq |-> f, source |-> [t \in { Name(k) \o "_src" : k \in 1..Len(z) } \cup { Name(k) \o "_sink" : k \in 1..Len(z) } |->
            LET k == CHOOSE m \in 1..Len(z) : t \in {Name(m) \o "_src", Name(m) \o "_sink"}
            IN  IF t = Name(k) \o "_src"
                THEN [V |-> CAdd(v[k], off), I |-> CAdd(i[k], CScale("0.25", off))]
                ELSE [V |-> off, I |-> CAdd(CSub(CZero, i[k]), CScale("0.25", off))]]]
Req(z, c, stages, off, fs) ==
    [terminals |-> [k \in 1..Len(z) |-> [src |-> Name(k) \o "_src", sink |-> Name(k) \o "_sink"]],
     sweeps |-> [k \in 1..Len(c) |-> Data(z, c[k], off, fs[k])], used |-> [k \in 1..Len(c) |-> k],
     stages |-> stages, extra |-> <<>>, z |-> z, rel |-> "1e-8"]
Freqs(n) == { [k \in 1..n |-> "1e3"], [k \in 1..n |-> "0"], [k \in 1..n |-> IF k = n THEN "2e3" ELSE "1e3"] }
Seqs(S, n) == UNION { [1..m -> S] : m \in 1..n }
MCInit == \E z \in Mats : \E c \in Seqs(Curs(Len(z)), IF Len(z) = 3 /\ Deep THEN 3 ELSE 2) : \E s \in StageSets(z) :
          \E f \in IF s = <<>> THEN Freqs(Len(c)) ELSE { [k \in 1..Len(c) |-> "1e3"] } : \E off \in {C(0, 0), C(4, -8)} :
              (off = CZero \/ Len(c) > 1) /\ InitW(Req(z, c, s, off, f))
Emit == phase = "solution" /\ PrintT("REQ " \o ToJson(req))
MCNext == (Emit /\ Extract) \/ Expand \/ Solve \/ (phase \in {"matrix", "refused"} /\ UNCHANGED wvars)
=============================================================================
