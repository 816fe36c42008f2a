-------------------------------- MODULE Green --------------------------------
(***************************************************************************)
(* Potential integral of two equal bricks (size d, offset r*d):            *)
(*                                                                         *)
(*     G(r) = Int_brick Int_brick 1/(4 pi |x - y|) dx dy                   *)
(*                                                                         *)
(* G is the third-order second difference of a six-fold antiderivative F   *)
(* of 1/|x| (Hoer and Love, 1965) on the lattice spanned by d.  The field  *)
(* integrals are the derivatives of G with respect to the offset.          *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE Dec

DPi == DMul("4", DAtan("1"))

P2(x) == DMul(x, x)
P4(x) == P2(P2(x))

\* x * asinh(x / q) with q^2 = q2 (x >= 0), with the weight w (0 for a degenerated axis)
LogTerm(w, x, r, q2) == IF DEq(w, "0") \/ DEq(x, "0") THEN "0"
    ELSE DMul(w, DMul(x, DLn(DDiv(DAdd(x, r), DSqrt(q2)))))
\* w * atan(u / v)
AtanTerm(w, u, v) == IF DEq(w, "0") THEN "0" ELSE DMul(w, DAtan(DDiv(u, v)))

\* six-fold antiderivative of 1/|x| for x, y, z >= 0 (even in each variable)
GreenF(x, y, z) ==
    LET xx == P2(x)  yy == P2(y)  zz == P2(z)
        r  == DSqrt(DSum(<<xx, yy, zz>>))
        W(a, b) == DSub(DDiv(DMul(a, b), "4"), DDiv(DAdd(P2(a), P2(b)), "24"))
        Q(a, b, w) == DDiv(DMul(DMul(a, b), DMul(w, P2(w))), "6")
        pol == DSub(DSum(<<P2(xx), P2(yy), P2(zz)>>),
                    DMul("3", DSum(<<DMul(xx, yy), DMul(yy, zz), DMul(zz, xx)>>)))
    IN  DSum(<< LogTerm(W(yy, zz), x, r, DAdd(yy, zz)),
                LogTerm(W(zz, xx), y, r, DAdd(zz, xx)),
                LogTerm(W(xx, yy), z, r, DAdd(xx, yy)),
                DDiv(DMul(r, pol), "60"),
                DNeg(AtanTerm(Q(x, y, z), DMul(x, y), DMul(z, r))),
                DNeg(AtanTerm(Q(x, z, y), DMul(x, z), DMul(y, r))),
                DNeg(AtanTerm(Q(y, z, x), DMul(y, z), DMul(x, r))) >>)

GAbs(k) == IF k < 0 THEN -k ELSE k

Lattice(n) == (0..n[1]) \X (0..n[2]) \X (0..n[3])

\* F on the lattice, and its derivative along an axis (central difference)
FTable(n, d) == [p \in Lattice(n) |->
    GreenF(DMul(DInt(p[1]), d[1]), DMul(DInt(p[2]), d[2]), DMul(DInt(p[3]), d[3]))]

Step == "1e-9"
DFTable(n, d, a) == [p \in Lattice(n) |->
    LET X(b, h) == DMul(DAdd(DInt(p[b]), IF b = a THEN h ELSE "0"), d[b])
    IN  IF p[a] = 0 THEN "0"
        ELSE DDiv(DSub(GreenF(X(1, Step), X(2, Step), X(3, Step)),
                       GreenF(X(1, DNeg(Step)), X(2, DNeg(Step)), X(3, DNeg(Step)))),
                  DMul(DMul("2", Step), d[a]))]

\* second differences along the three axes
Stencil == [k \in 1..27 |-> << ((k-1) % 3) - 1, (((k-1) \div 3) % 3) - 1, ((k-1) \div 9) - 1 >>]
Weight(o) == DInt((IF o[1] = 0 THEN -2 ELSE 1) * (IF o[2] = 0 THEN -2 ELSE 1) * (IF o[3] = 0 THEN -2 ELSE 1))
Weights == [k \in 1..27 |-> Weight(Stencil[k])]

At(p, o) == << GAbs(p[1] + o[1]), GAbs(p[2] + o[2]), GAbs(p[3] + o[3]) >>
Sign(a, p, o) == IF p[a] + o[a] < 0 THEN "-1" ELSE "1"

\* G at the offset p (from the table of F)
GreenAt(tabF, p) ==
    DDiv(DDot(Weights, [k \in 1..27 |-> tabF[At(p, Stencil[k])]]), DMul("4", DPi))

\* derivative of G along the axis a (from the table of the derivatives of F)
DGreenAt(tabD, a, p) ==
    DDiv(DDot(Weights, [k \in 1..27 |-> DMul(Sign(a, p, Stencil[k]), tabD[At(p, Stencil[k])])]),
         DMul("4", DPi))

Offsets(n) == (0..(n[1]-1)) \X (0..(n[2]-1)) \X (0..(n[3]-1))
=============================================================================
