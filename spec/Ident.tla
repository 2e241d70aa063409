-------------------------------- MODULE Ident --------------------------------
(* Identities: every process and every reference (alias, monitor, timer) that is handed out is a new one, whatever
   runs at the same time; what is sent to one identity concerns that identity alone. *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

InitI == [ever |-> {}, refs |-> {}, live |-> {}, als |-> {}, mons |-> <<>>, tms |-> {}, runners |-> {}]

Distinct(q) == Cardinality(ToSet(q)) = Len(q)
Fresh(used, q) == Distinct(q) /\ ToSet(q) \cap used = {}

\* Processes are made by a thread.
Spawned(s, q) == [s EXCEPT !.ever = @ \cup ToSet(q), !.live = @ \cup ToSet(q)]
CanSpawn(s, q) == Fresh(s.ever, q)

\* References are made by a thread.
CanRefer(s, q) == Fresh(s.refs, q)
Referred(s, q) == [s EXCEPT !.refs = @ \cup ToSet(q)]

\* What the processes got: each of the live ones the one message that was sent to it (its own number).
GotOk(s, m) ==
  /\ Len(m) = Cardinality(s.live \ s.runners)
  /\ {x[1] : x \in ToSet(m)} = s.live \ s.runners
  /\ \A i \in DOMAIN m : m[i][1] = m[i][2]

ListOk(s, q) == Distinct(q) /\ ToSet(q) = s.live

\* Each alias of a thread delivered its message to that thread, once.
AliasOk(e) == /\ Distinct(e.m) /\ ToSet(e.m) = 0..(e.n - 1)
              /\ ToSet(e.to) \subseteq {e.p}

\* Cancelled timers are gone; the others are not touched.
TimersOk(e) == e.left = SubSeq(e.all, e.cut + 1, Len(e.all))
==============================================================================
