--------------------------------- MODULE Dec ---------------------------------
(***************************************************************************)
(* Real-number arithmetic for the numerical part of the specification.     *)
(*                                                                         *)
(* TLC has 32-bit integers only, while the solver exchanges IEEE doubles.  *)
(* A "decimal" is a string denoting a real number ("-1.25e-7").  The       *)
(* operators below are uninterpreted in TLA+ (they denote the usual real   *)
(* operations) and are evaluated by TLC through spec/java/.../DecOps.java   *)
(* with java.math.BigDecimal (40 significant digits), i.e. far below the   *)
(* rounding of the recorded doubles.  "nan" denotes a value that is not a  *)
(* number: it is absorbing and every comparison with it is FALSE.          *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences

DAdd(a, b)  == CHOOSE r \in STRING : TRUE   \* a + b
DSub(a, b)  == CHOOSE r \in STRING : TRUE   \* a - b
DMul(a, b)  == CHOOSE r \in STRING : TRUE   \* a * b
DDiv(a, b)  == CHOOSE r \in STRING : TRUE   \* a / b   ("nan" if b = 0)
DSqrt(a)    == CHOOSE r \in STRING : TRUE   \* square root
DLn(a)      == CHOOSE r \in STRING : TRUE   \* natural logarithm
DAtan(a)    == CHOOSE r \in STRING : TRUE   \* arc tangent
DTurnCos(p, q) == CHOOSE r \in STRING : TRUE \* cosine of p/q turns (integers)
DTurnSin(p, q) == CHOOSE r \in STRING : TRUE \* sine of p/q turns (integers)
DInt(n)     == CHOOSE r \in STRING : TRUE   \* integer -> decimal
DLe(a, b)   == CHOOSE r \in BOOLEAN : TRUE  \* a <= b
DLt(a, b)   == CHOOSE r \in BOOLEAN : TRUE  \* a < b
DSum(s)     == CHOOSE r \in STRING : TRUE   \* sum of a sequence of decimals
DDot(s, t)  == CHOOSE r \in STRING : TRUE   \* sum of the products of two sequences
DMaxAbs(s)  == CHOOSE r \in STRING : TRUE   \* largest magnitude ("0" if empty)

DNeg(a)     == DSub("0", a)
DAbs(a)     == IF DLt(a, "0") THEN DNeg(a) ELSE a
DMax(a, b)  == IF DLe(a, b) THEN b ELSE a
DMin(a, b)  == IF DLe(a, b) THEN a ELSE b
DEq(a, b)   == DLe(a, b) /\ DLe(b, a)
DNum(a)     == DLe(a, a)                    \* is a number

\* |a - b| <= tol
DNear(a, b, tol) == DLe(DAbs(DSub(a, b)), tol)

\* |a - b| <= rel * max(|a|, |b|, floor)
DClose(a, b, rel, floor) ==
    DNear(a, b, DMul(rel, DMax(floor, DMax(DAbs(a), DAbs(b)))))

(* complex numbers: <<re, im>> *)
CZero       == <<"0", "0">>
CAdd(a, b)  == <<DAdd(a[1], b[1]), DAdd(a[2], b[2])>>
CSub(a, b)  == <<DSub(a[1], b[1]), DSub(a[2], b[2])>>
CMul(a, b)  == <<DSub(DMul(a[1], b[1]), DMul(a[2], b[2])),
                 DAdd(DMul(a[1], b[2]), DMul(a[2], b[1]))>>
CConj(a)    == <<a[1], DNeg(a[2])>>
CScale(r, a) == <<DMul(r, a[1]), DMul(r, a[2])>>
CAbs2(a)    == DAdd(DMul(a[1], a[1]), DMul(a[2], a[2]))
CAbs(a)     == DSqrt(CAbs2(a))
CInv(a)     == <<DDiv(a[1], CAbs2(a)), DDiv(DNeg(a[2]), CAbs2(a))>>
CDiv(a, b)  == CMul(a, CInv(b))
CSum(s)     == <<DSum([k \in 1..Len(s) |-> s[k][1]]), DSum([k \in 1..Len(s) |-> s[k][2]])>>
CNear(a, b, tol) == DLe(CAbs(CSub(a, b)), tol)
=============================================================================
