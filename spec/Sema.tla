------------------------------- MODULE Sema -------------------------------
(* Semaphores and tasks.  Actors are processes ("p"), tasks ("t") or blocking tasks ("b"); 0 is the outside.  A request that can
   not be granted waits in line, and whatever gives permits back grants those at the head of the line that fit. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

CONSTANTS MaxP

Pids == 1..MaxP
Sems == {1, 2}
Err == -1

(* z = [tot: sem -> Nat, q: sem -> Seq([id, p, n]), gr: set of [id, p, s, n] granted but not yet noticed,
        held: set of [id, p, s, n], a: actor -> [k, st, v], wait: actor -> what it is waiting for] *)
NoWait == [k |-> "no"]
InitZ == [tot |-> [x \in Sems |-> 0], q |-> [x \in Sems |-> <<>>], gr |-> {}, held |-> {},
          a |-> [p \in Pids |-> [k |-> "no", st |-> "no", v |-> 0]], w |-> [p \in 0..MaxP |-> NoWait]]

SumN(S) == FoldSet(LAMBDA x, acc : acc + x.n, 0, S)
Free(z, x) == z.tot[x] - SumN({h \in z.held \cup z.gr : h.s = x})
RECURSIVE Grant(_, _)
Grant(z, x) ==
  IF z.q[x] # <<>> /\ Head(z.q[x]).n <= Free(z, x)
  THEN LET h == Head(z.q[x]) IN
       Grant([z EXCEPT !.q[x] = Tail(@), !.gr = @ \cup {[id |-> h.id, p |-> h.p, s |-> x, n |-> h.n]}], x)
  ELSE z
GrantAll(z) == Grant(Grant(z, 1), 2)

Live(z, p) == p = 0 \/ z.a[p].st = "live"
\* An actor acts unless it waits for something.
MayAct(z, p) == Live(z, p) /\ z.w[p].k = "no"

\* Everything an actor had or asked for is given back.
Release(z, p) ==
  GrantAll([z EXCEPT !.held = {h \in @ : h.p # p}, !.gr = {h \in @ : h.p # p}, !.q = [x \in Sems |-> SelectSeq(@[x], LAMBDA r : r.p # p)],
                     !.w[p] = NoWait])
DieZ(z, p) == IF z.a[p].st = "dying" THEN {[Release(z, p) EXCEPT !.a[p].st = "done"]} ELSE {}
SilentZ(z) == UNION {DieZ(z, p) : p \in Pids}

TaskDone(z, q) == z.a[q].st = "done"
\* The result of awaiting tasks in order, or "no" if it is not there yet.
RECURSIVE Many(_, _, _)
Many(z, l, acc) ==
  IF l = <<>> THEN [k |-> "ok", r |-> acc]
  ELSE IF ~TaskDone(z, Head(l)) THEN [k |-> "no"]
  ELSE IF z.a[Head(l)].v = Err THEN [k |-> "ok", r |-> <<Err>>]
  ELSE Many(z, Tail(l), Append(acc, z.a[Head(l)].v))

\* Outcomes of an operation of p: the new state and the result.
Ops(z, p, e) ==
  CASE e.o = "sem" -> {[z |-> [z EXCEPT !.tot[e.s] = e.n], r |-> 0]}
    [] e.o = "spawn" -> {[z |-> [z EXCEPT !.a[e.c] = [k |-> e.k, st |-> "live", v |-> 0]], r |-> 0]}
    [] e.o = "req" /\ MayAct(z, p) ->
         LET now == e.n = 0 \/ (z.q[e.s] = <<>> /\ e.n <= Free(z, e.s)) IN
         {[z |-> [z EXCEPT !.w[p] = [k |-> "acq", id |-> e.id, s |-> e.s],
                           !.gr = IF now THEN @ \cup {[id |-> e.id, p |-> p, s |-> e.s, n |-> e.n]} ELSE @,
                           !.q[e.s] = IF now THEN @ ELSE Append(@, [id |-> e.id, p |-> p, n |-> e.n])], r |-> 0]}
    [] e.o = "got" /\ Live(z, p) ->
         LET g == {h \in z.gr : h.id = e.id /\ h.p = p} IN
         {[z |-> [z EXCEPT !.gr = @ \ g, !.held = @ \cup g, !.w[p] = NoWait], r |-> 0] : x \in g}
    [] e.o = "can" /\ Live(z, p) /\ z.w[p].k = "acq" /\ z.w[p].id = e.id ->
         {[z |-> GrantAll([z EXCEPT !.gr = {h \in @ : h.id # e.id}, !.q = [x \in Sems |-> SelectSeq(@[x], LAMBDA r : r.id # e.id)], !.w[p] = NoWait]),
           r |-> 0]}
    [] e.o = "try" /\ MayAct(z, p) ->
         IF z.q[e.s] = <<>> /\ Free(z, e.s) >= 1
         THEN {[z |-> [z EXCEPT !.held = @ \cup {[id |-> e.id, p |-> p, s |-> e.s, n |-> 1]}], r |-> 1]}
         ELSE {[z |-> z, r |-> 0]}
    [] e.o = "rel" /\ MayAct(z, p) ->
         {[z |-> GrantAll([z EXCEPT !.held = @ \ {x}]), r |-> 0] : x \in {h \in z.held : h.id = e.id /\ h.p = p}}
    [] e.o = "give" /\ MayAct(z, p) ->
         {[z |-> GrantAll([z EXCEPT !.held = IF z.a[e.q].st = "done" THEN @ \ {x} ELSE (@ \ {x}) \cup {[x EXCEPT !.p = e.q]}]), r |-> 0] :
             x \in {h \in z.held : h.id = e.id /\ h.p = p}}
    [] e.o = "kill" -> {[z |-> [z EXCEPT !.a[e.q].st = IF @ = "live" THEN "dying" ELSE @, !.a[e.q].v = IF z.a[e.q].st = "live" THEN Err ELSE @], r |-> 0]}
    [] e.o = "ret" /\ MayAct(z, p) -> {[z |-> [z EXCEPT !.a[p].st = "dying", !.a[p].v = e.v], r |-> 0]}
    [] e.o = "aw" /\ MayAct(z, p) -> {[z |-> [z EXCEPT !.w[p] = [k |-> "aw", l |-> e.l]], r |-> 0]}
    \* a task that is shut down goes no further; a blocking one that has begun does
    [] e.o = "shut" /\ MayAct(z, p) ->
         LET q == e.l[1] IN
         {[z |-> [z EXCEPT !.w[p] = [k |-> "aw", l |-> e.l],
                           !.a[q] = IF @.st = "live" /\ @.k # "b" THEN [@ EXCEPT !.st = "dying", !.v = Err] ELSE @], r |-> 0]}
    [] e.o = "awd" /\ Live(z, p) /\ z.w[p].k = "aw" ->
         LET m == Many(z, z.w[p].l, <<>>) IN
         IF m.k = "ok" THEN {[z |-> [z EXCEPT !.w[p] = NoWait], r |-> m.r]} ELSE {}
    [] OTHER -> {}

\* Nothing is left to do: whatever could be granted has been noticed, whoever was to die is dead.  (Blocking tasks take their time.)
HasBlk(z, p) == z.w[p].k = "aw" /\ \E i \in DOMAIN z.w[p].l : z.a[z.w[p].l[i]].k = "b"
QuietZ(z, final) ==
  /\ \A h \in z.gr : ~Live(z, h.p)
  /\ \A p \in Pids : z.a[p].st = "dying" => z.a[p].k = "b" /\ ~final
  /\ \A p \in Pids : Live(z, p) /\ z.w[p].k = "aw" => Many(z, z.w[p].l, <<>>).k = "no" \/ (HasBlk(z, p) /\ ~final)
=============================================================================
