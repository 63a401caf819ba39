------------------------------ MODULE TraceLib ------------------------------
(* What all the trace specifications share: the recorded trace, one record per
   line, and helpers on the JSON values.

   A trace specification is a behaviour which consumes one recorded event per
   step; l is the next line. A step is taken for every event, but an event that
   no action of the specification explains is reported on stdout, where
   check.py collects it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
TraceLen == Len(Trace)

Has(e, f) == f \in DOMAIN e

Reject(l) == PrintT(<<"BAD", l>>)
Explained(ok, l) == IF ok THEN TRUE ELSE Reject(l)
Finished(l) == IF l = TraceLen THEN PrintT(<<"DONE", TraceLen>>) ELSE TRUE

(* helpers *)
Range(s) == {s[i] : i \in DOMAIN s}
=============================================================================
