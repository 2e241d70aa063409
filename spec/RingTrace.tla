----------------------------- MODULE RingTrace -----------------------------
(* Validates recorded executions of the hash ring by one or more threads: operations have a begin and an end event and take
   effect in between.  The circular order of the keys is not known unless the recording has it (a long one): it is any order that
   explains the results. *)
EXTENDS Ring, Json, IOUtils

MaxK == atoi(IOEnv.MAXP)
Thr == 0..3
Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, st, pend
vars == <<t, l, st, pend>>

Ev == Traces[t].ev
E == Ev[l]
Idle == [e |-> [o |-> "no"], w |-> [ph |-> "no", r |-> None, todo |-> <<>>]]

\* Every circular order once: key 1 comes first.  A trace has its keys in .n.
Orders(n) == {<<1>> \o o : o \in SetToSeqs(2..n)}
Pad(o, n) == o \o [i \in 1..(NK - n) |-> n + i]

Init ==
  /\ t \in DOMAIN Traces
  /\ l = 1
  /\ \E o \in IF Ev[1].ord # <<>> THEN {Ev[1].ord} ELSE Orders(Ev[1].n) : st = InitSt(Pad(o, Ev[1].n))
  /\ pend = [p \in Thr |-> Idle]

First == l = 1 /\ l' = 2 /\ UNCHANGED <<t, st, pend>>
Begin ==
  /\ l > 1 /\ l <= Len(Ev) /\ E.e = "b"
  /\ pend[E.p].w.ph = "no"
  /\ pend' = [pend EXCEPT ![E.p] = [e |-> E, w |-> Start(E)]]
  /\ l' = l + 1 /\ UNCHANGED <<t, st>>
End ==
  /\ l > 1 /\ l <= Len(Ev) /\ E.e = "e"
  /\ pend[E.p].w.ph = "done" /\ pend[E.p].w.r = E.r
  /\ pend' = [pend EXCEPT ![E.p] = Idle]
  /\ l' = l + 1 /\ UNCHANGED <<t, st>>
Silent ==
  /\ l <= Len(Ev)
  /\ \E p \in Thr :
       /\ pend[p].w.ph \notin {"no", "done"}
       /\ \E x \in Steps(st, p + 1, pend[p].e, pend[p].w) : st' = x.st /\ pend' = [pend EXCEPT ![p].w = x.w]
  /\ UNCHANGED <<t, l>>

\* A trace is done when one behaviour was found that has all its events; what takes too many states stays undecided.
Limit == 100000
More == TLCGet(t) <= Len(Traces[t].ev) /\ TLCGet(Len(Traces) + t) < Limit

Next1 == First \/ Begin \/ End \/ Silent
Next == More /\ Next1
Spec == Init /\ [][Next]_vars

Track == /\ TLCSet(t, IF TLCGet(t) < l THEN l ELSE TLCGet(t))
         /\ TLCSet(Len(Traces) + t, TLCGet(Len(Traces) + t) + 1)
Zero == \A i \in 1..2 * Len(Traces) : TLCSet(i, 0)
ASSUME Zero
Short == {i \in DOMAIN Traces : TLCGet(i) <= Len(Traces[i].ev)}
Big == {i \in Short : TLCGet(Len(Traces) + i) >= Limit}
Bad == Short \ Big
Accepted == /\ \A i \in Big : PrintT(<<"BIG", i, TLCGet(i)>>)
            /\ \A i \in Bad : PrintT(<<"BAD", i, TLCGet(i)>>)
            /\ PrintT(<<"DONE", Len(Traces), Cardinality(Bad)>>)
=============================================================================
