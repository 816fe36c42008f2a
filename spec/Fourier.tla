-------------------------------- MODULE Fourier --------------------------------
(* Fourier series of real periodic signals (W07).                                *)
(* A series is a sequence of complex numbers: mean value, then the peak values   *)
(* of the harmonics 1, 2, ...; a signal is a sequence of samples of one period.  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Dec

VARIABLES req, phase, sig, ser
fvars == <<req, phase, sig, ser>>

\* harmonic h of a signal with N samples (peak value, the mean value for h = 0)
Harm(s, h) ==
    LET N == Len(s)
        re == DDot(s, [m \in 1..N |-> DTurnCos(h*(m-1), N)])
        im == DNeg(DDot(s, [m \in 1..N |-> DTurnSin(h*(m-1), N)]))
    IN  CScale(DDiv(IF h = 0 THEN "1" ELSE "2", DInt(N)), <<re, im>>)
Series(s) == [k \in 1..(Len(s) \div 2 + 1) |-> Harm(s, k-1)]
\* length of a series: cut or filled with zeros
Fit(v, count) == [k \in 1..count |-> IF k <= Len(v) THEN v[k] ELSE CZero]
\* value of the series at sample m of N (the harmonic N/2 exists only as a cosine: half of its peak value)
Value(v, m, N) ==
    LET Top == (N-1) \div 2     \* last harmonic below N/2
        Term(k) == LET c == DTurnCos(k*(m-1), N) s == DTurnSin(k*(m-1), N)
                   IN  DSub(DMul(v[k+1][1], c), DMul(v[k+1][2], s))
        last == IF N % 2 = 0 /\ Len(v) > N \div 2 THEN DDiv(DMul(v[N \div 2 + 1][1], DTurnCos((N \div 2)*(m-1), N)), "2") ELSE "0"
        used == [k \in 1..Len(v) |-> IF k-1 > Top \/ k = 1 THEN "0" ELSE Term(k-1)]
    IN  DAdd(DAdd(v[1][1], DSum(used)), last)
Signal(v, N) == [m \in 1..N |-> Value(v, m, N)]

\* request: start ("signal" or "series"), signal or series, count (number of harmonics, 0 for all), samples (0 for the default)
InitF(r) == req = r /\ phase = r.start /\ sig = r.signal /\ ser = r.series
Analyse == /\ phase = "signal"
           /\ \E s \in {Series(sig)} : ser' = IF req.count = 0 THEN s ELSE Fit(s, req.count)
           /\ phase' = "analysed" /\ UNCHANGED <<req, sig>>
Synthesise == /\ phase \in {"series", "analysed"}
              /\ \E N \in {IF req.samples = 0 THEN 2*(Len(ser)-1) ELSE req.samples} : sig' = Signal(ser, N)
              /\ phase' = IF phase = "series" THEN "synthesised" ELSE "back"
              /\ UNCHANGED <<req, ser>>
Again == /\ phase = "synthesised" /\ phase' = "again"
         /\ \E s \in {Series(sig)} : ser' = Fit(s, Len(req.series)) /\ UNCHANGED <<req, sig>>

\* a signal is restored from its complete series, a series without harmonics from N/2 from its samples
Scale(v) == DMaxAbs(FlattenSeq([k \in 1..Len(v) |-> v[k]]))
FourierInv ==
    /\ phase = "back" /\ req.count = 0 /\ req.samples = Len(req.signal) =>
          \A m \in 1..Len(sig) : DNear(sig[m], req.signal[m], DMul("1e-30", DMaxAbs(req.signal)))
    /\ phase = "again" /\ 2*(Len(req.series)-1) < Len(sig) =>
          \A k \in 1..Len(ser) : CNear(ser[k], IF k = 1 THEN <<req.series[1][1], "0">> ELSE req.series[k], DMul("1e-30", Scale(req.series)))
=============================================================================
