----------------------------- MODULE TraceBase -----------------------------
(* Reading a recorded trace of the implementation, one event per step.       *)
(* A step whose event breaks laws of the specification is still consumed,    *)
(* after each broken law has been reported: the rest of the trace is checked *)
(* too, and the caller sets reported laws against the known findings.        *)
EXTENDS Sequences, Naturals, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE l
Ev == Trace[l]
Consume(fails) == /\ l <= Len(Trace)
                  /\ \A f \in fails : PrintT(<<"LAWFAIL", l, f>>)
                  /\ l' = l + 1
\* <<law, site>> of every conjunct that does not hold
Broken(laws) == {<<p[1], p[2]>> : p \in {q \in laws : ~q[3]}}
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
Has(e, f) == f \in DOMAIN e
=============================================================================
