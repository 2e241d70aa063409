----------------------------- MODULE GenTrace -----------------------------
(* Validates recorded sequential executions of GenServers.  Every line of the trace file is one execution,
   [id, ev]; every event is an operation with its result, or a snapshot taken when the runtime was idle. *)
EXTENDS Gen, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, s, g
vars == <<t, l, s, g>>

Ev == Traces[t].ev
E == Ev[l]

\* Compare a snapshot with the state.
SnapOk(e) ==
  /\ e.now = s.now
  /\ ToSet(e.list) = {q \in Pids : s.proc[q].st = "live"}
  /\ ToSet(e.reg) = s.names
  /\ \A i \in DOMAIN e.info :
       LET x == e.info[i] IN
       /\ Exists(s, x.p) /\ x.alive
       /\ LET y == Info(s, x.p) IN
          /\ x.nm = y.nm /\ x.trap = y.trap
          /\ ToSet(x.links) = y.links
          /\ ToSet(x.monby) = DOMAIN y.monby
          /\ \A o \in DOMAIN y.monby : Cardinality({j \in DOMAIN x.monby : x.monby[j] = o}) = y.monby[o]

Init == t \in DOMAIN Traces /\ l = 1 /\ s = InitS /\ g = InitG

OpStep ==
  /\ l <= Len(Ev)
  /\ E.o \notin {"quiet", "adv", "final", "hang", "crash"}
  /\ MayRun(s, E.p)
  /\ IF E.p # 0 /\ E.o \notin Ends THEN MayBegin(s, g, E.p, E) ELSE TRUE
  /\ \E x \in GOutcomes(s, g, E.p, E) : x.r = E.r /\ s' = x.s /\ g' = x.g
  /\ l' = l + 1 /\ UNCHANGED t

QuietStep ==
  /\ l <= Len(Ev)
  /\ E.o = "quiet"
  /\ GQuiet(s, g) /\ SnapOk(E)
  /\ l' = l + 1 /\ UNCHANGED <<t, s, g>>

AdvStep ==
  /\ l <= Len(Ev)
  /\ E.o = "adv"
  /\ GQuiet(s, g)
  /\ s' = [s EXCEPT !.now = E.now] /\ l' = l + 1 /\ UNCHANGED <<t, g>>

FinalStep ==
  /\ l <= Len(Ev)
  /\ E.o = "final" /\ E.left = 0
  /\ l' = l + 1 /\ UNCHANGED <<t, s, g>>

Silent ==
  /\ l <= Len(Ev)
  /\ \E x \in GSilent(s, g) : s' = x.s /\ g' = x.g
  /\ UNCHANGED <<t, l>>

\* A trace is done when one behaviour was found that has all its events; what takes too many states stays undecided.
Limit == 100000
More == TLCGet(t) <= Len(Traces[t].ev) /\ TLCGet(Len(Traces) + t) < Limit

Next1 == OpStep \/ QuietStep \/ AdvStep \/ FinalStep \/ Silent
Next == More /\ Next1
Spec == Init /\ [][Next]_vars

Track == /\ TLCSet(t, IF TLCGet(t) < l THEN l ELSE TLCGet(t))
         /\ TLCSet(Len(Traces) + t, TLCGet(Len(Traces) + t) + 1)
Zero == \A i \in 1..2 * Len(Traces) : TLCSet(i, 0)
ASSUME Zero
Short == {i \in DOMAIN Traces : TLCGet(i) <= Len(Traces[i].ev)}
Big == {i \in Short : TLCGet(Len(Traces) + i) >= Limit}
Bad == Short \ Big
Accepted == /\ \A i \in Big : PrintT(<<"BIG", i, TLCGet(i)>>)
            /\ \A i \in Bad : PrintT(<<"BAD", i, TLCGet(i)>>)
            /\ PrintT(<<"DONE", Len(Traces), Cardinality(Bad)>>)
=============================================================================
