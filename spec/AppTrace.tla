----------------------------- MODULE AppTrace -----------------------------
(* Validates recorded runs of applications, each in a process of its own. *)
EXTENDS App, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, m, n
vars == <<t, l, m, n>>
Ev == Traces[t].ev
E == Ev[l]
\* the configurations of the runs, one after the other
C == Ev[1].runs[n]

Init == t \in DOMAIN Traces /\ l = 2 /\ m = InitM /\ n = 1
\* A trace is done when one behaviour was found that has all its events; what takes too many states stays undecided.
Limit == 100000
More == TLCGet(t) <= Len(Traces[t].ev) /\ TLCGet(Len(Traces) + t) < Limit

Next1 ==
  /\ l <= Len(Ev)
  /\ n' = IF E.o = "run" /\ m.st = "returned" THEN n + 1 ELSE n
  /\ m' \in Step(C, m, E, E.t)
  /\ l' = l + 1 /\ UNCHANGED t
Next == More /\ Next1
Spec == Init /\ [][Next]_vars

Track == /\ TLCSet(t, IF TLCGet(t) < l THEN l ELSE TLCGet(t))
         /\ TLCSet(Len(Traces) + t, TLCGet(Len(Traces) + t) + 1)
Zero == \A i \in 1..2 * Len(Traces) : TLCSet(i, 0)
ASSUME Zero
Short == {i \in DOMAIN Traces : TLCGet(i) <= Len(Traces[i].ev)}
Big == {i \in Short : TLCGet(Len(Traces) + i) >= Limit}
Bad == Short \ Big
Accepted == /\ \A i \in Big : PrintT(<<"BIG", i, TLCGet(i)>>)
            /\ \A i \in Bad : PrintT(<<"BAD", i, TLCGet(i)>>)
            /\ PrintT(<<"DONE", Len(Traces), Cardinality(Bad)>>)
=============================================================================
