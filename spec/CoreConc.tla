----------------------------- MODULE CoreConc -----------------------------
(* Validates recorded concurrent executions.  Operations have a begin ("b") and an end ("e") event; each takes effect
   in one or more silent steps in between, and the runtime cleans up dying processes in fine steps at any time. *)
EXTENDS Core, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, s, pend
vars == <<t, l, s, pend>>

Ev == Traces[t].ev
E == Ev[l]

NoPend == [k |-> "no"]
Callers == 0..MaxP

SnapOk(e) ==
  /\ e.now = s.now
  /\ ToSet(e.list) = {q \in Pids : s.proc[q].st = "live"}
  /\ ToSet(e.reg) = s.names
  /\ \A i \in DOMAIN e.info :
       LET x == e.info[i] IN
       /\ Exists(s, x.p) /\ x.alive
       /\ LET y == Info(s, x.p) IN
          /\ x.nm = y.nm /\ x.trap = y.trap
          /\ ToSet(x.links) = y.links
          /\ ToSet(x.monby) = DOMAIN y.monby
          /\ \A o \in DOMAIN y.monby : Cardinality({j \in DOMAIN x.monby : x.monby[j] = o}) = y.monby[o]

Init == t \in DOMAIN Traces /\ l = 1 /\ s = InitS /\ pend = [p \in Callers |-> NoPend]

IsB == l <= Len(Ev) /\ "e" \in DOMAIN E /\ E.e = "b"
IsE == l <= Len(Ev) /\ "e" \in DOMAIN E /\ E.e = "e"
IsO(o) == l <= Len(Ev) /\ "e" \notin DOMAIN E /\ E.o = o

Begin ==
  /\ IsB
  /\ pend[E.p].k = "no"
  /\ MayRun(s, E.p)
  /\ pend' = [pend EXCEPT ![E.p] = IF E.o = "send"
                                   THEN [k |-> "send", op |-> E, left |-> E.dests]
                                   ELSE [k |-> "op", op |-> E]]
  /\ l' = l + 1 /\ UNCHANGED <<t, s>>

Done(p, r) == [pend EXCEPT ![p] = [k |-> "done", r |-> r]]

\* One destination is resolved; names and aliases are delivered to in a later step.
SendStep(p) ==
  /\ pend[p].k = "send"
  /\ IF pend[p].left = <<>> THEN pend' = Done(p, "ok") /\ s' = s
     ELSE \E i \in DOMAIN pend[p].left :
            LET op == pend[p].op
                d == pend[p].left[i]
                rest == RemoveAt(pend[p].left, i)
                item == Item_U(op.ty, op.m)
            IN IF d[1] = "pid"
               THEN /\ s' = Deliver(s, d[2], item)
                    /\ pend' = [pend EXCEPT ![p].left = rest]
               ELSE IF d[1] = "name"
               THEN /\ s' = s
                    /\ pend' = [pend EXCEPT ![p] = [k |-> "deliver", op |-> op, left |-> rest, q |-> NameOf(s, d[3])]]
               ELSE LET A == {a \in s.als : a.ref = d[2]} IN
                    IF A = {} THEN s' = s /\ pend' = [pend EXCEPT ![p].left = rest]
                    ELSE LET a == CHOOSE a \in A : TRUE IN
                         /\ s' = IF a.reply THEN AliasOff(s, a.ref) ELSE s
                         /\ pend' = [pend EXCEPT ![p] = [k |-> "deliver", op |-> op, left |-> rest, q |-> a.owner]]

DeliverStep(p) ==
  /\ pend[p].k = "deliver"
  /\ s' = Deliver(s, pend[p].q, Item_U(pend[p].op.ty, pend[p].op.m))
  /\ pend' = [pend EXCEPT ![p] = [k |-> "send", op |-> @.op, left |-> @.left]]

OpStep(p) ==
  /\ pend[p].k = "op"
  /\ LET op == pend[p].op IN
     CASE op.o = "recvb" ->
            LET f == Filter(op)
                it == Found(s, p, f)
            IN \/ it.k \notin {"none", "panic"} /\ s' = Take(s, p, f) /\ pend' = Done(p, it)
               \/ it.k = "panic" /\ s' = Finish(s, p, StrictPanic) /\ pend' = Done(p, it)
               \/ op.ms >= 0 /\ s' = s /\ pend' = Done(p, [k |-> "timeout"])
       [] op.o = "monitor" /\ op.dest[1] = "name" ->
            /\ s' = s
            /\ pend' = [pend EXCEPT ![p] = [k |-> "mon", op |-> op, q |-> NameOf(s, op.dest[3])]]
       [] op.o = "unregister" ->
            LET q == NameOf(s, op.n) IN
            IF q = 0 THEN s' = s /\ pend' = Done(p, "panic")
            ELSE /\ s' = [s EXCEPT !.names = @ \ {<<op.n, q>>}]
                 /\ pend' = [pend EXCEPT ![p] = [k |-> "unreg", q |-> q]]
       [] OTHER -> \E x \in Outcomes(s, p, op) : s' = x.s /\ pend' = Done(p, x.r)

MonStep(p) ==
  /\ pend[p].k = "mon"
  /\ \E x \in OpMonitorAt(s, p, pend[p].op, pend[p].q) : s' = x.s /\ pend' = Done(p, x.r)

UnregStep(p) ==
  /\ pend[p].k = "unreg"
  /\ s' = [s EXCEPT !.proc[pend[p].q].nm = ""]
  /\ pend' = Done(p, "ok")

End ==
  /\ IsE
  /\ pend[E.p].k = "done" /\ pend[E.p].r = E.r
  /\ pend' = [pend EXCEPT ![E.p] = NoPend]
  /\ l' = l + 1 /\ UNCHANGED <<t, s>>

\* The alias of a monitor is switched off some time before its down message is there.
AliasSteps(q) ==
  IF s.proc[q].st # "sig" THEN {}
  ELSE {AliasOff(s, m.ref) : m \in {m \in MonsOn(s, q) : \E a \in s.als : a.ref = m.ref}}

\* The name may be released before the process leaves the table.
NameSteps(q) ==
  IF s.proc[q].st # "dying" \/ s.proc[q].nm = "" THEN {}
  ELSE {[s EXCEPT !.proc[q].nm = "", !.proc[q].fin = FALSE, !.names = {x \in @ : x[2] # q}]}

Silent ==
  /\ l <= Len(Ev)
  /\ \/ \E p \in Callers : SendStep(p) \/ DeliverStep(p) \/ OpStep(p) \/ MonStep(p) \/ UnregStep(p)
     \/ \E q \in Pids : s' \in DieSteps(s, q) \cup AliasSteps(q) \cup NameSteps(q) /\ UNCHANGED pend
     \/ s' \in FireSteps(s) /\ UNCHANGED pend
  /\ UNCHANGED <<t, l>>

\* A process that ended while it waited leaves its operation unfinished.
Settled == \A p \in Callers : pend[p].k = "no"
              \/ (p # 0 /\ Ended(s, p))
              \/ (pend[p].k = "op" /\ pend[p].op.o = "recvb" /\ Found(s, p, Filter(pend[p].op)).k = "none")

QuietStep ==
  /\ IsO("quiet")
  /\ Quiet(s) /\ Settled /\ SnapOk(E)
  /\ l' = l + 1 /\ UNCHANGED <<t, s, pend>>

AdvStep ==
  /\ IsO("adv")
  /\ s' = [s EXCEPT !.now = E.now] /\ l' = l + 1 /\ UNCHANGED <<t, pend>>

FinalStep ==
  /\ IsO("final") /\ E.left = 0
  /\ l' = l + 1 /\ UNCHANGED <<t, s, pend>>

\* A trace is done when one behaviour was found that has all its events; what takes too many states stays undecided.
Limit == 100000
More == TLCGet(t) <= Len(Traces[t].ev) /\ TLCGet(Len(Traces) + t) < Limit

Next1 == Begin \/ End \/ Silent \/ QuietStep \/ AdvStep \/ FinalStep
Next == More /\ Next1
Spec == Init /\ [][Next]_vars

Track == /\ TLCSet(t, IF TLCGet(t) < l THEN l ELSE TLCGet(t))
         /\ TLCSet(Len(Traces) + t, TLCGet(Len(Traces) + t) + 1)
Zero == \A i \in 1..2 * Len(Traces) : TLCSet(i, 0)
ASSUME Zero
Short == {i \in DOMAIN Traces : TLCGet(i) <= Len(Traces[i].ev)}
Big == {i \in Short : TLCGet(Len(Traces) + i) >= Limit}
Bad == Short \ Big
Accepted == /\ \A i \in Big : PrintT(<<"BIG", i, TLCGet(i)>>)
            /\ \A i \in Bad : PrintT(<<"BAD", i, TLCGet(i)>>)
            /\ PrintT(<<"DONE", Len(Traces), Cardinality(Bad)>>)
=============================================================================
