------------------------------ MODULE RingMC ------------------------------
(* Design check of the hash ring: every interleaving of a few operations of some threads. *)
EXTENDS Ring

CONSTANTS Ops, Kinds, Vals

VARIABLES st, pend, left, seenO, seenN, last
vars == <<st, pend, left, seenO, seenN, last>>

Order == [i \in 1..NK |-> i]
Idle == [e |-> [o |-> "no", k |-> 1], w |-> [ph |-> "no", r |-> None, todo |-> <<>>]]
Lists == {<<>>} \cup {<<<<a, v>>>> : a \in Keys, v \in Vals} \cup {<<<<a, v>>, <<b, v>>>> : a \in Keys, b \in Keys, v \in Vals}
Calls ==
  UNION {CASE o \in {"find", "remn", "remo"} -> {[o |-> o, k |-> a] : a \in Keys}
           [] o \in {"addn", "addo"} -> {[o |-> o, k |-> a, v |-> v] : a \in Keys, v \in Vals}
           [] o \in {"addns", "setns", "addos", "seto"} -> {[o |-> o, k |-> 1, l |-> x] : x \in Lists}
           [] OTHER -> {[o |-> o, k |-> 1]} : o \in Kinds}

Init ==
  /\ st = InitSt(Order) /\ pend = [p \in Threads |-> Idle] /\ left = Ops
  /\ seenO = [p \in Threads |-> {}] /\ seenN = [p \in Threads |-> {}] /\ last = [k |-> "no"]

Active(p) == pend[p].w.ph # "no"
Look(s2, pd2) ==
  /\ seenO' = [p \in Threads |-> IF pd2[p].w.ph = "no" THEN {} ELSE IF pd2[p].e.o = "find" THEN seenO[p] \cup {s2.ov[pd2[p].e.k]} ELSE {}]
  /\ seenN' = [p \in Threads |-> IF pd2[p].w.ph = "no" THEN {} ELSE IF pd2[p].e.o = "find" THEN seenN[p] \cup {Owner(s2.ord, s2.nd, pd2[p].e.k)} ELSE {}]

Begin(p) ==
  /\ left > 0 /\ ~Active(p)
  /\ \E e \in Calls : pend' = [pend EXCEPT ![p] = [e |-> e, w |-> Start(e)]] /\ last' = [k |-> "no"]
  /\ left' = left - 1 /\ UNCHANGED st
  /\ Look(st, pend')
Step(p) ==
  /\ pend[p].w.ph \notin {"no", "done"}
  /\ \E x \in Steps(st, p, pend[p].e, pend[p].w) : st' = x.st /\ pend' = [pend EXCEPT ![p].w = x.w]
  /\ last' = [k |-> "step", e |-> pend[p].e, ph |-> pend[p].w.ph]
  /\ UNCHANGED left
  /\ Look(st', pend')
End(p) ==
  /\ pend[p].w.ph = "done"
  /\ pend' = [pend EXCEPT ![p] = Idle] /\ last' = [k |-> "no"]
  /\ UNCHANGED <<st, left>>
  /\ Look(st, pend')

Next == \E p \in Threads : Begin(p) \/ Step(p) \/ End(p)
Spec == Init /\ [][Next]_vars

\* A lookup sees overrides and nodes that were there while it ran.
FindOk == \A p \in Threads : (pend[p].w.ph = "done" /\ pend[p].e.o = "find") =>
             pend[p].w.r \in (seenO[p] \ {None}) \cup (IF None \in seenO[p] THEN seenN[p] ELSE {})
\* What is owned is a node, and there is an owner if there is a node.
OwnerOk == \A k \in Keys : LET o == Owner(st.ord, st.nd, k) IN
             IF \A x \in Keys : st.nd[x] = None THEN o = None ELSE o \in {st.nd[x] : x \in Keys} \ {None}
\* Consistency: adding moves keys to the new node only, removing moves the keys of that node only.
Moves ==
  [][ last'.k = "step" =>
      CASE last'.e.o = "addn" -> \A k \in Keys : Owner(st.ord, st.nd, k) # Owner(st'.ord, st'.nd, k) =>
                                     Owner(st'.ord, st'.nd, k) = last'.e.v
        [] last'.e.o = "remn" -> \A k \in Keys : Owner(st.ord, st.nd, k) # Owner(st'.ord, st'.nd, k) =>
                                     Owner(st.ord, st.nd, k) = st.nd[last'.e.k]
        [] OTHER -> TRUE ]_vars
\* An operation that is over has left its mark, if it was the last one.
Quiet == \A p \in Threads : ~Active(p)
NoLock == Quiet => st.lock = 0
\* Nobody waits for ever.
Live == \A p \in Threads : pend[p].w.ph \notin {"no", "done"} =>
          \E q \in Threads : pend[q].w.ph \notin {"no", "done"} /\ Steps(st, q, pend[q].e, pend[q].w) # {}
=============================================================================
