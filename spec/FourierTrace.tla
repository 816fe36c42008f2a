----------------------------- MODULE FourierTrace -----------------------------
EXTENDS Fourier, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES id, bad, verdict
Obs == Trace[id].obs
Init == \E k \in 1..Len(Trace) : id = k /\ bad = <<>> /\ verdict = "" /\ InitF(Trace[k].req)
Failing(name, holds) == IF holds THEN <<>> ELSE <<name>>
Big == DMaxAbs(<<"1e-30">> \o req.signal \o FlattenSeq([k \in 1..Len(req.series) |-> req.series[k]]))
Near(x, y) == DNear(x, y, DMul("1e-10", Big))
SameSer(o, v) == Len(o) = Len(v) /\ \A k \in 1..Len(v) : Near(o[k][1], v[k][1]) /\ Near(o[k][2], v[k][2])
SameSig(o, s) == Len(o) = Len(s) /\ \A k \in 1..Len(s) : Near(o[k], s[k])
Step == /\ \/ Analyse /\ bad' = bad \o Failing("series of the signal", Obs.series.ok /\ SameSer(Obs.series.val, ser'))
           \/ Synthesise /\ bad' = bad \o Failing("signal of the series", Obs.signal.ok /\ SameSig(Obs.signal.val, sig'))
           \/ Again /\ bad' = bad \o Failing("series of the signal", Obs.series.ok /\ SameSer(Obs.series.val, ser'))
        /\ UNCHANGED <<id, verdict>>
\* time and frequency vectors
TimeOk == Len(Obs.time) = Len(sig) /\ \A k \in 1..Len(sig) : DClose(Obs.time[k], DDiv(DInt(k-1), DMul(req.freq, DInt(Len(sig)))), "1e-12", "1e-300")
FreqOk == Len(Obs.freq) = Len(ser) /\ \A k \in 1..Len(ser) : DClose(Obs.freq[k], DMul(DInt(k-1), req.freq), "1e-12", "1e-300")
Judge == /\ phase \in {"back", "again"} /\ verdict = ""
         /\ verdict' = ToJson([id |-> id, end |-> phase, why |-> "", bad |-> bad \o Failing("input modified", Obs.kept)
              \o Failing("time vector", TimeOk) \o Failing("frequency vector", FreqOk)])
         /\ PrintT("VERDICT " \o verdict') /\ UNCHANGED <<fvars, id, bad>>
Next == Step \/ Judge
=============================================================================
