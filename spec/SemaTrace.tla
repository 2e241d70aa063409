----------------------------- MODULE SemaTrace -----------------------------
(* Validates recorded executions of semaphores and tasks. *)
EXTENDS Sema, Json, IOUtils

MaxPid == atoi(IOEnv.MAXP)
Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, z
vars == <<t, l, z>>

Ev == Traces[t].ev
E == Ev[l]

Init == t \in DOMAIN Traces /\ l = 1 /\ z = InitZ

OpStep ==
  /\ l <= Len(Ev) /\ E.o \notin {"quiet", "final", "hang", "crash"}
  /\ \E x \in Ops(z, E.p, E) : x.r = E.r /\ z' = x.z
  /\ l' = l + 1 /\ UNCHANGED t
QuietStep == l <= Len(Ev) /\ E.o \in {"quiet", "final"} /\ QuietZ(z, E.o = "final") /\ l' = l + 1 /\ UNCHANGED <<t, z>>
Silent == l <= Len(Ev) /\ z' \in SilentZ(z) /\ UNCHANGED <<t, l>>

\* A trace is done when one behaviour was found that has all its events; what takes too many states stays undecided.
Limit == 100000
More == TLCGet(t) <= Len(Traces[t].ev) /\ TLCGet(Len(Traces) + t) < Limit

Next1 == OpStep \/ QuietStep \/ Silent
Next == More /\ Next1
Spec == Init /\ [][Next]_vars

Track == /\ TLCSet(t, IF TLCGet(t) < l THEN l ELSE TLCGet(t))
         /\ TLCSet(Len(Traces) + t, TLCGet(Len(Traces) + t) + 1)
Zero == \A i \in 1..2 * Len(Traces) : TLCSet(i, 0)
ASSUME Zero
Short == {i \in DOMAIN Traces : TLCGet(i) <= Len(Traces[i].ev)}
Big == {i \in Short : TLCGet(Len(Traces) + i) >= Limit}
Bad == Short \ Big
Accepted == /\ \A i \in Big : PrintT(<<"BIG", i, TLCGet(i)>>)
            /\ \A i \in Bad : PrintT(<<"BAD", i, TLCGet(i)>>)
            /\ PrintT(<<"DONE", Len(Traces), Cardinality(Bad)>>)
=============================================================================
