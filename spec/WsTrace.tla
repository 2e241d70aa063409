------------------------------ MODULE WsTrace ------------------------------
(* Validates recorded websocket connections. *)
EXTENDS Ws, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, c
vars == <<t, l, c>>
Ev == Traces[t].ev
E == Ev[l]

Init == t \in DOMAIN Traces /\ l = 1 /\ c = InitC
\* A trace is done when one behaviour was found that has all its events; what takes too many states stays undecided.
Limit == 100000
More == TLCGet(t) <= Len(Traces[t].ev) /\ TLCGet(Len(Traces) + t) < Limit

Next1 ==
  /\ l <= Len(Ev)
  /\ \/ E.o = "end" /\ EndOk(c) /\ l' = l + 1 /\ UNCHANGED <<t, c>>
     \/ E.o # "end" /\ c' \in Step(c, E) /\ l' = l + 1 /\ UNCHANGED t
     \/ c' \in Silent(c) /\ UNCHANGED <<t, l>>
Next == More /\ Next1
Spec == Init /\ [][Next]_vars

Track == /\ TLCSet(t, IF TLCGet(t) < l THEN l ELSE TLCGet(t))
         /\ TLCSet(Len(Traces) + t, TLCGet(Len(Traces) + t) + 1)
Zero == \A i \in 1..2 * Len(Traces) : TLCSet(i, 0)
ASSUME Zero
Short == {i \in DOMAIN Traces : TLCGet(i) <= Len(Traces[i].ev)}
Big == {i \in Short : TLCGet(Len(Traces) + i) >= Limit}
Bad == Short \ Big
Accepted == /\ \A i \in Big : PrintT(<<"BIG", i, TLCGet(i)>>)
            /\ \A i \in Bad : PrintT(<<"BAD", i, TLCGet(i)>>)
            /\ PrintT(<<"DONE", Len(Traces), Cardinality(Bad)>>)
=============================================================================
