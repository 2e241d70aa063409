------------------------------- MODULE SupMC -------------------------------
(* Exhaustive check of the design of supervisors: process 1 starts supervisor 3 with two children (k1, k2), process 2 interferes
   with at most MaxOps operations; children get pids from 4 on.  Every interleaving and every outcome of a start function. *)
EXTENDS Sup

CONSTANTS Kinds, MaxOps, MaxTime, Strats, Autos, Restarts, MaxRs, Trapping, Api

VARIABLES s, g, u, n, h
vars == <<s, g, u, n, h>>

Sv == 3
Free(p) == MayRun(s, p) /\ ~Waiting(s, g, p)
Opt(k, S) == IF k \in Kinds THEN S ELSE {}
Born == s.proc[Sv].st # "none"
NextPid == LET F == {q \in Pids : q > 3 /\ s.proc[q].st = "none"} IN IF F = {} THEN 0 ELSE CHOOSE q \in F : \A r \in F : q <= r

\* h.of: child id of each pid; h.att: times of restart attempts; h.term: stops made while terminating, in order; h.order: kids when it began
\* h.api: ids ended or changed through the API; h.own: pids that ended by themselves, with their child's place; h.shut: it gave up
InitH == [of |-> [q \in Pids |-> ""], att |-> <<>>, stops |-> <<>>, order |-> <<>>, api |-> {}, gone |-> FALSE, killed |-> FALSE, mx |-> 0, unsafe |-> FALSE]

Init == s = NewProc(NewProc(InitS, 1), 2) /\ g = InitG /\ u = InitU /\ n = 0 /\ h = InitH

Specs == {[id |-> id, restart |-> r, sh |-> sh - 3, sig |-> (r # "permanent"), typ |-> "worker"] : id \in {"k1", "k2"}, r \in Restarts, sh \in Trapping}

Ids == {"k1", "k2"}
D == <<"pid", Sv, "">>
Call(q) == [o |-> "scall", dest |-> D, m |-> n + 1, ref |-> n + 1, ms |-> -1, req |-> q]

ClientOps ==
  IF ~Born THEN {}
  ELSE Opt("exit", {[o |-> "exit", q |-> q, rs |-> rs] : q \in {q \in Pids : q > 3 /\ Exists(s, q)}, rs \in {"kill", "c:shutdown"}})
    \cup Opt("exitsup", {[o |-> "exit", q |-> Sv, rs |-> "kill"]})
    \cup (IF "api" \in Kinds THEN {Call([k |-> k, id |-> id]) : k \in Api \ {"start"}, id \in Ids} ELSE {})
    \cup (IF "api" \in Kinds /\ "start" \in Api THEN {Call([k |-> "start", id |-> x.id, spec |-> x]) : x \in Specs} ELSE {})
    \cup Opt("stop", {[o |-> "gstop", dest |-> D, m |-> n + 1, ref |-> n + 1, rs |-> "normal", ms |-> -1]})

Begin ==
  /\ ~Born /\ Free(1)
  /\ \E a, b \in Specs, st \in Strats, au \in Autos, mr \in MaxRs : a.id = "k1" /\ b.id = "k2" /\
      \E x \in SOutcomes(s, g, u, 1, [o |-> "supstart", c |-> Sv, link |-> FALSE, n |-> "", ms |-> -1, kids |-> <<a, b>>, strat |-> st, auto |-> au,
                                      maxr |-> mr, maxd |-> 1]) :
        s' = x.s /\ g' = x.g /\ u' = x.u /\ h' = [h EXCEPT !.mx = mr]
  /\ UNCHANGED n

ClientStep ==
  /\ n < MaxOps /\ Free(2)
  /\ \E op \in ClientOps : \E x \in SOutcomes(s, g, u, 2, op) :
       /\ s' = x.s /\ g' = x.g /\ u' = x.u
       /\ h' = [h EXCEPT !.api = IF op.o = "scall" THEN @ \cup {op.req.id} ELSE @, !.killed = @ \/ (op.o = "exit" /\ op.q = Sv)]
  /\ n' = n + 1

EndStep ==
  /\ \E p \in {1, 2} : MayRun(s, p) /\ g.wait[p].k # "no" /\
       \E x \in SOutcomes(s, g, u, p, [o |-> CASE g.wait[p].k = "call" -> "scalled" [] g.wait[p].k = "stop" -> "gstopped" [] OTHER -> "gstarted"]) :
         s' = x.s /\ g' = x.g /\ u' = x.u
  /\ UNCHANGED <<n, h>>

\* The start function of a child is called, makes a process (or fails, or asks to be ignored), and returns.
StartStep ==
  LET w == u.sup[Sv] IN
  /\ Born /\ MayRun(s, Sv) /\ w.todo # <<>>
  /\ LET t == Head(w.todo) IN t.k = "st" /\
     IF ~w.cur
     THEN \E x \in SOutcomes(s, g, u, Sv, [o |-> "cs", id |-> t.id]) :
            /\ s' = x.s /\ g' = x.g /\ u' = x.u
            /\ h' = IF t.w = "restart" /\ w.strat = "one_for_one" THEN [h EXCEPT !.att = Append(@, s.now)] ELSE h
     ELSE \/ /\ NextPid # 0
             /\ \E y \in OpSpawn(s, Sv, [c |-> NextPid, kind |-> "link"]) :
                \E x \in SOutcomes([y.s EXCEPT !.proc[NextPid].trap = (w.kids[Idx(w, t.id)].sh >= 0)], g, u, Sv, [o |-> "csr", id |-> t.id, res |-> [k |-> "ok", c |-> NextPid]]) :
                  s' = x.s /\ g' = x.g /\ u' = x.u
             /\ h' = [h EXCEPT !.of[NextPid] = t.id]
          \/ /\ "fail" \in Kinds
             /\ \E x \in SOutcomes(s, g, u, Sv, [o |-> "csr", id |-> t.id, res |-> [k |-> "err", rs |-> "c:e"]]) : s' = x.s /\ g' = x.g /\ u' = x.u
             /\ h' = h
          \/ /\ "ignore" \in Kinds
             /\ \E x \in SOutcomes(s, g, u, Sv, [o |-> "csr", id |-> t.id, res |-> [k |-> "err", rs |-> "ignore"]]) : s' = x.s /\ g' = x.g /\ u' = x.u
             /\ h' = [h EXCEPT !.api = @ \cup {t.id}]
  /\ UNCHANGED n

Silent ==
  /\ \/ /\ \E x \in SSilent(s, g, u) :
           /\ s' = x.s /\ g' = x.g /\ u' = x.u
           /\ LET w == u.sup[Sv] IN
              h' = [h EXCEPT !.order = IF g.srv[Sv].ph = "term" /\ x.g.srv[Sv].ph = "terming" THEN [i \in DOMAIN w.kids |-> w.kids[i].id] ELSE @,
                             !.stops = IF g.srv[Sv].ph = "terming" /\ w.todo # <<>> /\ Head(w.todo).k = "stop" /\ x.u.sup[Sv].todo # w.todo
                                       THEN Append(@, Head(w.todo).id) ELSE @,
                             !.gone = @ \/ (w.on /\ g.srv[Sv].ph = "idle" /\ x.g.srv[Sv].ph = "term" /\ x.g.srv[Sv].rs = "c:shutdown")]
     \/ s.now < MaxTime /\ Quiet(s) /\ (IF u.sup[Sv].todo = <<>> \/ u.sup[Sv].cur THEN TRUE ELSE Head(u.sup[Sv].todo).k # "st") /\ s' = [s EXCEPT !.now = @ + 1] /\ UNCHANGED <<g, u, h>>
  /\ UNCHANGED n

Next == Begin \/ ClientStep \/ EndStep \/ StartStep \/ Silent
Spec == Init /\ [][Next]_vars

W == u.sup[Sv]
Still == Born /\ Live(s, Sv) /\ SQuiet(s, g, u) /\ g.srv[Sv].ph = "idle" /\ W.todo = <<>> /\ ~W.cur

\* A child never has two live processes.
OneLive == \A q, r \in Pids : q # r /\ h.of[q] # "" /\ h.of[q] = h.of[r] => ~(Live(s, q) /\ Live(s, r))
\* C13: what is at rest agrees with the policies.
Policy == Still => \A i \in DOMAIN W.kids : LET x == W.kids[i] IN
   /\ x.pid # 0 => Live(s, x.pid)
   /\ (x.restart = "permanent" /\ x.id \notin h.api) => x.pid # 0
   /\ (x.restart = "temporary" /\ x.id \notin h.api) => x.pid # 0
   /\ \A q \in Pids : (h.of[q] = x.id /\ Live(s, q)) => x.pid = q
   /\ x.rst => FALSE
\* C14: no window holds more restarts than allowed (one_for_one: a restart is one start).
Limit == \A i \in DOMAIN h.att : Cardinality({j \in DOMAIN h.att : j >= i /\ h.att[j] - h.att[i] <= 1}) <= h.mx
\* C15: orderly termination is in reverse order and leaves nobody.
RevOrder == \A i \in DOMAIN h.stops : h.order[Len(h.order) + 1 - i] = h.stops[i]
NobodyLeft == (s.proc[Sv].st = "dead" /\ ~h.killed /\ Quiet(s)) => \A q \in Pids : h.of[q] # "" => ~Live(s, q)
OneByOne == g.srv[Sv].ph = "terming" => Cardinality({i \in DOMAIN W.todo : W.todo[i].k = "wait"}) <= 1
\* C17: at rest no significant child that ended by itself is left unnoticed.
Auto == (Still /\ h.api = {}) =>
   /\ W.auto = "any" => \A i \in DOMAIN W.kids : W.kids[i].sig => W.kids[i].pid # 0
   /\ (W.auto = "all" /\ \E i \in DOMAIN W.kids : W.kids[i].sig) => \E i \in DOMAIN W.kids : W.kids[i].sig /\ W.kids[i].pid # 0
NoAuto == (h.gone /\ W.auto = "never") => Len(SelectSeq(W.hist, LAMBDA t : TRUE)) > W.maxr
=============================================================================
