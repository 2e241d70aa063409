----------------------------- MODULE IdentTrace -----------------------------
(* Validates recorded parallel executions against Ident. *)
EXTENDS Ident, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, s, mons
vars == <<t, l, s, mons>>

Ev == Traces[t].ev
E == Ev[l]

Init == t \in DOMAIN Traces /\ l = 1 /\ s = InitI /\ mons = {}

Is(o) == l <= Len(Ev) /\ E.o = o
Go == l' = l + 1 /\ UNCHANGED t

\* A trace is done when one behaviour was found that has all its events; what takes too many states stays undecided.
Limit == 100000
More == TLCGet(t) <= Len(Traces[t].ev) /\ TLCGet(Len(Traces) + t) < Limit

Next1 ==
  \/ Is("runners") /\ CanSpawn(s, E.ids) /\ s' = [Spawned(s, E.ids) EXCEPT !.runners = ToSet(E.ids)] /\ UNCHANGED mons /\ Go
  \/ Is("new") /\ E.k = "pid" /\ CanSpawn(s, E.ids) /\ s' = Spawned(s, E.ids) /\ UNCHANGED mons /\ Go
  \/ Is("new") /\ E.k # "pid" /\ CanRefer(s, E.ids) /\ s' = Referred(s, E.ids)
       /\ mons' = (IF E.k = "mon" THEN mons \cup {<<E.p, r>> : r \in ToSet(E.ids)} ELSE mons) /\ Go
  \/ Is("got") /\ GotOk(s, E.m) /\ UNCHANGED <<s, mons>> /\ Go
  \/ Is("list") /\ ListOk(s, E.ids) /\ UNCHANGED <<s, mons>> /\ Go
  \/ Is("alias-got") /\ AliasOk(E) /\ UNCHANGED <<s, mons>> /\ Go
  \/ Is("timers") /\ TimersOk(E) /\ UNCHANGED <<s, mons>> /\ Go
  \/ Is("downs") /\ Distinct(E.refs) /\ E.other = 0
       /\ ToSet(E.refs) = {x[2] : x \in {x \in mons : x[1] = E.p}}
       /\ mons' = {x \in mons : x[1] # E.p} /\ UNCHANGED s /\ Go
  \/ Is("list-end") /\ ToSet(E.ids) = s.runners /\ mons = {} /\ s' = [s EXCEPT !.live = s.runners] /\ UNCHANGED mons /\ Go

Next == More /\ Next1
Spec == Init /\ [][Next]_vars

Track == /\ TLCSet(t, IF TLCGet(t) < l THEN l ELSE TLCGet(t))
         /\ TLCSet(Len(Traces) + t, TLCGet(Len(Traces) + t) + 1)
Zero == \A i \in 1..2 * Len(Traces) : TLCSet(i, 0)
ASSUME Zero
Short == {i \in DOMAIN Traces : TLCGet(i) <= Len(Traces[i].ev)}
Big == {i \in Short : TLCGet(Len(Traces) + i) >= Limit}
Bad == Short \ Big
Accepted == /\ \A i \in Big : PrintT(<<"BIG", i, TLCGet(i)>>)
            /\ \A i \in Bad : PrintT(<<"BAD", i, TLCGet(i)>>)
            /\ PrintT(<<"DONE", Len(Traces), Cardinality(Bad)>>)
=============================================================================
