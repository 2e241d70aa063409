------------------------------ MODULE SemaMC ------------------------------
(* Design check of semaphores and tasks. *)
EXTENDS Sema

CONSTANTS MaxOps, Kinds, Total, Sizes

VARIABLES z, left, nid, arr
vars == <<z, left, nid, arr>>

Init ==
  /\ z = [InitZ EXCEPT !.tot[1] = Total, !.a = [p \in Pids |-> [k |-> IF p = MaxP THEN "p" ELSE "t", st |-> "live", v |-> 0]]]
  /\ left = MaxOps /\ nid = 1 /\ arr = <<>>

Calls(p) ==
  UNION {CASE k = "req" -> {[o |-> k, id |-> nid, s |-> 1, n |-> n] : n \in Sizes}
           [] k = "try" -> {[o |-> k, id |-> nid, s |-> 1]}
           [] k = "rel" -> {[o |-> k, id |-> h.id] : h \in z.held}
           [] k = "can" -> {[o |-> k, id |-> i] : i \in 1..nid}
           [] k = "give" -> {[o |-> k, id |-> h.id, q |-> q] : h \in z.held, q \in Pids \ {p}}
           [] k = "kill" -> {[o |-> k, q |-> q] : q \in {x \in Pids : z.a[x].k = "p"}}
           [] k = "ret" -> {[o |-> k, v |-> v] : v \in {7, Err}}
           [] k = "aw" -> {[o |-> k, l |-> x] : x \in {<<q>> : q \in {y \in Pids \ {p} : z.a[y].k = "t"}}}
           [] k = "shut" -> {[o |-> k, l |-> x] : x \in {<<q>> : q \in {y \in Pids \ {p} : z.a[y].k = "t"}}}
           [] OTHER -> {} : k \in Kinds}
Free1 == {"got", "awd"}
\* A granted request is noticed, an awaited task is noticed.
Notice(p) ==
  \/ \E h \in z.gr : h.p = p /\ \E x \in Ops(z, p, [o |-> "got", id |-> h.id]) : z' = x.z
  \/ \E x \in Ops(z, p, [o |-> "awd"]) : z' = x.z
OneAwait(e) == e.o \in {"aw", "shut"} => \A p \in Pids : z.w[p].k = "aw" => e.l[1] \notin ToSet(z.w[p].l)
Next ==
  \/ left > 0 /\ \E p \in Pids : \E e \in Calls(p) :
        /\ e.o = "kill" \/ Live(z, p)
        /\ OneAwait(e)
        /\ \E x \in Ops(z, p, e) : z' = x.z
        /\ left' = left - 1 /\ nid' = nid + 1
        /\ arr' = IF e.o = "req" THEN Append(arr, e.id) ELSE arr
  \/ \E p \in Pids : Notice(p) /\ UNCHANGED <<left, nid, arr>>
  \/ z' \in SilentZ(z) /\ UNCHANGED <<left, nid, arr>>
Spec == Init /\ [][Next]_vars

\* Never more permits out than there are.
NoOver == SumN(z.held \cup z.gr) <= z.tot[1]
\* Whoever waits could not be served: the head of the line does not fit.
NoIdle == z.q[1] # <<>> => Head(z.q[1]).n > Free(z, 1)
\* The line is in order of arrival.
InOrder == \A i, j \in DOMAIN z.q[1] : i < j => z.q[1][i].id < z.q[1][j].id
\* The dead hold nothing.
DeadFree == \A p \in Pids : z.a[p].st = "done" => ~ \E h \in z.held \cup z.gr : h.p = p
Ended == (\A p \in Pids : z.a[p].st = "done") => Free(z, 1) = z.tot[1]
=============================================================================
