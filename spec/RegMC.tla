------------------------------- MODULE RegMC -------------------------------
(* Exhaustive check of the design of registries: process 1 starts registry 3 ("a"), processes 1 and 2 make at most MaxOps requests;
   what the start function makes gets pids from 4 on. *)
EXTENDS Reg

CONSTANTS Kinds, MaxOps, MaxTime, Shut

VARIABLES s, g, u, n, h
vars == <<s, g, u, n, h>>

Rg == 3
Keys == {"k1", "k2"}
Free(p) == MayRun(s, p) /\ ~Waiting(s, g, p)
Opt(k, S) == IF k \in Kinds THEN S ELSE {}
Born == s.proc[Rg].st # "none"
NextPid == LET F == {q \in Pids : q > 3 /\ s.proc[q].st = "none"} IN IF F = {} THEN 0 ELSE CHOOSE q \in F : \A r \in F : q <= r

\* h.of: key of each pid; h.kept: pids removed from the registry; h.hurt: a removed process was given a signal by the registry
InitH == [of |-> [q \in Pids |-> ""], kept |-> {}, exited |-> {}, trap |-> {}]
Init == s = NewProc(NewProc(InitS, 1), 2) /\ g = InitG /\ u = InitR /\ n = 0 /\ h = InitH

Dests == {<<"pid", Rg, "">>, <<"name", 0, "a">>}
Reqs == Opt("los", {[k |-> "los", key |-> k] : k \in Keys}) \cup Opt("start", {[k |-> "start", key |-> "k1"]}) \cup Opt("lookup", {[k |-> "lookup", key |-> "k1"]})
        \cup Opt("stop", {[k |-> "stop", key |-> "k1"]}) \cup Opt("remove", {[k |-> "remove", key |-> "k1"]})
ClientOps ==
  IF ~Born THEN {}
  ELSE {[o |-> "rcall", dest |-> d, m |-> n + 1, ref |-> n + 1, ms |-> -1, req |-> q] : d \in Dests, q \in Reqs}
    \cup Opt("exit", {[o |-> "exit", q |-> q, rs |-> "kill"] : q \in {q \in Pids : q > 3 /\ Exists(s, q)}})
    \cup Opt("kill", {[o |-> "exit", q |-> Rg, rs |-> "kill"]})
    \cup Opt("gstop", {[o |-> "gstop", dest |-> <<"pid", Rg, "">>, m |-> n + 1, ref |-> n + 1, rs |-> "c:bye", ms |-> -1]})

Begin == /\ ~Born /\ Free(1)
         /\ \E sh \in Shut : \E x \in ROutcomes(s, g, u, 1, [o |-> "regstart", c |-> Rg, link |-> FALSE, n |-> "a", ms |-> -1, sh |-> sh - 3, start |-> TRUE]) :
              s' = x.s /\ g' = x.g /\ u' = x.u
         /\ UNCHANGED <<n, h>>

ClientStep ==
  /\ n < MaxOps
  /\ \E p \in {1, 2} : Free(p) /\ \E op \in ClientOps : \E x \in ROutcomes(s, g, u, p, op) :
       /\ s' = x.s /\ g' = x.g /\ u' = x.u
       /\ h' = CASE op.o = "exit" -> [h EXCEPT !.exited = @ \cup {op.q}]
                 [] op.o = "rcall" -> [h EXCEPT !.kept = IF x.g.wait[p].k = "now" /\ op.req.k = "remove" THEN @ \cup {x.g.wait[p].v.q} ELSE @]
                 [] OTHER -> h
  /\ n' = n + 1

EndStep ==
  /\ \E p \in {1, 2} : MayRun(s, p) /\ g.wait[p].k # "no" /\
       \E x \in ROutcomes(s, g, u, p, [o |-> CASE g.wait[p].k \in {"call", "now"} -> "rcalled" [] g.wait[p].k = "stop" -> "gstopped" [] OTHER -> "gstarted"]) :
         s' = x.s /\ g' = x.g /\ u' = x.u
  /\ UNCHANGED <<n, h>>

StartStep ==
  LET w == u.reg[Rg] IN
  /\ Born /\ MayRun(s, Rg) /\ w.todo # <<>>
  /\ LET t == Head(w.todo) IN t.k = "st" /\
     IF ~w.cur
     THEN \E x \in ROutcomes(s, g, u, Rg, [o |-> "cs", id |-> t.id]) : s' = x.s /\ g' = x.g /\ u' = x.u /\ h' = h
     ELSE \/ /\ NextPid # 0
             /\ \E tr \in BOOLEAN :
                /\ \E y \in OpSpawn(s, Rg, [c |-> NextPid, kind |-> "link"]) :
                   \E x \in ROutcomes([y.s EXCEPT !.proc[NextPid].trap = tr], g, u, Rg, [o |-> "csr", id |-> t.id, res |-> [k |-> "ok", c |-> NextPid]]) :
                     s' = x.s /\ g' = x.g /\ u' = x.u
                /\ h' = [h EXCEPT !.of[NextPid] = t.id, !.trap = IF tr THEN @ \cup {NextPid} ELSE @]
          \/ /\ "fail" \in Kinds
             /\ \E x \in ROutcomes(s, g, u, Rg, [o |-> "csr", id |-> t.id, res |-> [k |-> "err", rs |-> "c:e"]]) : s' = x.s /\ g' = x.g /\ u' = x.u
             /\ h' = h
  /\ UNCHANGED n

Silent ==
  /\ \/ \E x \in RSilent(s, g, u) :
          /\ s' = x.s /\ g' = x.g /\ u' = x.u
          \* removed by the registry itself, on request
          /\ h' = IF g.srv[Rg].ph = "idle" /\ Loop(s, g, Rg).k = "cb" /\ x.s.proc[Rg].mb # s.proc[Rg].mb /\ x.u.tab # u.tab
                     /\ (IF Loop(s, g, Rg).kind = "call" THEN (CHOOSE y \in u.req : y.m = Loop(s, g, Rg).m).req.k = "remove" ELSE FALSE)
                  THEN [h EXCEPT !.kept = @ \cup {e.q : e \in u.tab \ x.u.tab}] ELSE h
     \/ s.now < MaxTime /\ Quiet(s) /\ s' = [s EXCEPT !.now = @ + 1] /\ UNCHANGED <<g, u, h>>
  /\ UNCHANGED n

Next == Begin \/ ClientStep \/ EndStep \/ StartStep \/ Silent
Spec == Init /\ [][Next]_vars

Still == Quiet(s) /\ (Born /\ Live(s, Rg) => g.srv[Rg].ph = "idle" /\ u.reg[Rg].todo = <<>> /\ ~u.reg[Rg].cur /\ Loop(s, g, Rg).k = "none")
\* C18: at most one live process per key that was not removed or stopped.
OnePerKey == \A k \in Keys : Cardinality({q \in Pids : h.of[q] = k /\ Live(s, q) /\ q \notin h.kept /\ [n |-> "a", key |-> k, q |-> q] \in u.tab}) <= 1
TabOk == \A e, f \in u.tab : e.key = f.key => e = f
Gone == Still => \A e \in u.tab : Live(s, e.q) /\ Live(s, Rg)
\* C19: a removed process lives on, whatever the registry does.
RemovedStay == Still => \A q \in h.kept \ (h.exited \cup {0}) : Live(s, q) /\ LinksOf(s, q) = {}
\* When the registry has ended nothing that was registered is alive: what is alive was removed, or stopped and traps exits.
NobodyLeft == (Still /\ s.proc[Rg].st = "dead") => \A q \in Pids : (h.of[q] # "" /\ Live(s, q)) => q \in h.kept \/ (q \in h.trap /\ q \notin Known(u, Rg) /\ "stop" \in Kinds)
=============================================================================
