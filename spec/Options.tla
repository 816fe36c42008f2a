-------------------------------- MODULE Options --------------------------------
(* Numerical options which select the way to the solution, and not the solution. *)
(* The choices are made one after the other; a complete choice is emitted.       *)
EXTENDS Integers, Sequences, TLC, Json

VARIABLES opt, todo

\* options and their possible values (paths of the tolerance data, and actions of the harness)
Values == [
    mult     |-> {"fft", "direct"},
    split    |-> {TRUE, FALSE},
    library  |-> {"SciPy", "NumPy", "MKL", "FFTW", "CuPy"},
    worker   |-> {0, 2, -1},
    factor   |-> {"SuperLU", "PARDISO", "root", "adapt"},
    coupling |-> {"direct", "segregated"},
    solver   |-> {"gmres", "gcrot"},
    guess    |-> {"none", "own", "other"},
    check    |-> {TRUE, FALSE},
    relax    |-> {"1.0", "0.8"},
    stop     |-> {TRUE, FALSE} ]
Names == << "mult", "split", "library", "worker", "factor", "coupling", "solver", "guess", "check", "relax", "stop" >>

\* choices without effect are made once
Matters(o, name) ==
    CASE name \in {"split", "library"} -> o.mult = "fft"
      [] name = "worker" -> o.mult = "fft" /\ o.library \in {"SciPy", "FFTW"}
      [] name = "relax" -> o.coupling = "segregated"
      \* with a relaxation, a constant power says nothing about the potentials
      [] name = "stop" -> o.relax = "1.0"
      [] OTHER -> TRUE
Default == [mult |-> "fft", split |-> TRUE, library |-> "SciPy", worker |-> 0, factor |-> "SuperLU", coupling |-> "direct", solver |-> "gmres",
            guess |-> "none", check |-> TRUE, relax |-> "1.0", stop |-> FALSE]

Init == opt = Default /\ todo = Names
Choose ==
    /\ todo # <<>>
    /\ \E v \in Values[Head(todo)] :
        /\ ~Matters(opt, Head(todo)) => v = Default[Head(todo)]
        /\ opt' = [opt EXCEPT ![Head(todo)] = v]
    /\ todo' = Tail(todo)
Emit ==
    /\ todo = <<>> /\ opt.mult # "done"
    /\ PrintT("OPT " \o ToJson(opt))
    /\ opt' = [opt EXCEPT !.mult = "done"] /\ UNCHANGED todo
Next == Choose \/ Emit

\* what the properties rely on: only the known choices
TypeOK == opt.mult = "done" \/ \A k \in 1..Len(Names) : opt[Names[k]] \in Values[Names[k]]
=============================================================================
