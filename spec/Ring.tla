------------------------------- MODULE Ring -------------------------------
(* The hash ring: a fixed circular order of the keys, a set of nodes and a set of overrides.  Updates take a lock;
   those of the nodes happen in one step, those of several overrides key by key; a lookup reads the override of its key
   and then the nodes. *)
EXTENDS Naturals, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

CONSTANTS NK,       \* keys are 1..NK
          Threads

Keys == 1..NK
None == 0
Empty == [k \in Keys |-> None]

\* st = [ord, nd, ov, lock]: ord is a sequence of all the keys, taken as a circle.
PosOf(ord, k) == CHOOSE i \in 1..NK : ord[i] = k
\* The owner of a key: the first node at or after it.
Owner(ord, nd, k) ==
  IF \A x \in Keys : nd[x] = None THEN None
  ELSE LET p == PosOf(ord, k)
           at(i) == ord[((p - 1 + i) % NK) + 1]
           i == CHOOSE j \in 0..(NK - 1) : nd[at(j)] # None /\ \A m \in 0..(j - 1) : nd[at(m)] = None
       IN nd[at(i)]
Find(st, k) == IF st.ov[k] # None THEN st.ov[k] ELSE Owner(st.ord, st.nd, k)

InitSt(ord) == [ord |-> ord, nd |-> Empty, ov |-> Empty, lock |-> 0]

\* Pairs [k, v] one after the other.
Put(f, l) == FoldLeft(LAMBDA a, x : [a EXCEPT ![x[1]] = x[2]], f, l)
LastOf(l) == [k \in Keys |-> IF \E i \in DOMAIN l : l[i][1] = k
                             THEN l[CHOOSE i \in DOMAIN l : l[i][1] = k /\ \A j \in DOMAIN l : l[j][1] = k => j <= i][2] ELSE None]

NodeUp == {"addn", "remn", "addns", "setns"}
OvUp == {"addo", "remo", "addos", "seto"}

\* Steps of the operation of a thread.  e is the operation, w what it has to do still: [ph, r, ..]; ph = "done" is the end.
Start(e) == [ph |-> "begin", r |-> None, todo |-> <<>>]
Done(w, r) == [w EXCEPT !.ph = "done", !.r = r]
Steps(st, me, e, w) ==
  LET k == e.k IN
  CASE w.ph = "begin" /\ e.o = "find" ->
         {[st |-> st, w |-> IF st.ov[k] # None THEN Done(w, st.ov[k]) ELSE [w EXCEPT !.ph = "ring"]]}
    [] w.ph = "ring" -> {[st |-> st, w |-> Done(w, Owner(st.ord, st.nd, k))]}
    [] w.ph = "begin" /\ e.o = "addn" /\ st.lock = 0 -> {[st |-> [st EXCEPT !.nd[k] = e.v], w |-> Done(w, st.nd[k])]}
    [] w.ph = "begin" /\ e.o = "remn" /\ st.lock = 0 -> {[st |-> [st EXCEPT !.nd[k] = None], w |-> Done(w, st.nd[k])]}
    [] w.ph = "begin" /\ e.o = "addns" /\ st.lock = 0 -> {[st |-> [st EXCEPT !.nd = Put(@, e.l)], w |-> Done(w, None)]}
    [] w.ph = "begin" /\ e.o = "setns" /\ st.lock = 0 -> {[st |-> [st EXCEPT !.nd = Put(Empty, e.l)], w |-> Done(w, None)]}
    [] w.ph = "begin" /\ e.o = "addo" /\ st.lock = 0 -> {[st |-> [st EXCEPT !.ov[k] = e.v], w |-> Done(w, st.ov[k])]}
    [] w.ph = "begin" /\ e.o = "remo" /\ st.lock = 0 -> {[st |-> [st EXCEPT !.ov[k] = None], w |-> Done(w, st.ov[k])]}
    [] w.ph = "begin" /\ e.o \in {"addos", "seto"} /\ st.lock = 0 ->
         {[st |-> [st EXCEPT !.lock = me], w |-> [w EXCEPT !.ph = "each", !.todo = e.l]]}
    [] w.ph = "each" /\ w.todo # <<>> ->
         {[st |-> [st EXCEPT !.ov[w.todo[1][1]] = w.todo[1][2]], w |-> [w EXCEPT !.todo = Tail(@)]]}
    [] w.ph = "each" /\ w.todo = <<>> /\ e.o = "addos" -> {[st |-> [st EXCEPT !.lock = 0], w |-> Done(w, None)]}
    \* what is not in the new set goes, in any order
    [] w.ph = "each" /\ w.todo = <<>> /\ e.o # "addos" ->
         LET keep == IF e.o = "clear" THEN {} ELSE {e.l[i][1] : i \in DOMAIN e.l}
             gone == {x \in Keys : st.ov[x] # None /\ x \notin keep} IN
         IF gone = {} THEN {[st |-> [st EXCEPT !.lock = 0], w |-> Done(w, None)]}
         ELSE {[st |-> [st EXCEPT !.ov[x] = None], w |-> w] : x \in gone}
    [] w.ph = "begin" /\ e.o = "clear" /\ st.lock = 0 ->
         {[st |-> [st EXCEPT !.lock = me, !.nd = Empty], w |-> [w EXCEPT !.ph = "each"]]}
    [] OTHER -> {}
=============================================================================
