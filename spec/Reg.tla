-------------------------------- MODULE Reg --------------------------------
(***************************************************************************)
(* Registries: a server that starts processes by key, and a table of the   *)
(* node that can also be read (and removed from) directly by name.         *)
(***************************************************************************)
EXTENDS Sup

NoReg == [on |-> FALSE, n |-> "", sh |-> 0, start |-> FALSE, look |-> {}, todo |-> <<>>, cur |-> FALSE, ending |-> FALSE]

\* u.tab: the table, a set of [n, key, q]; u.reg[p].look: what the registry p knows, a set of <<pid, key>>
InitR == [sup |-> [q \in Pids |-> NoSup], k |-> 100000, req |-> {}, res |-> {}, try |-> {},
          reg |-> [q \in Pids |-> NoReg], tab |-> {}]

KeyPid(u, n, key) == LET E == {e \in u.tab : e.n = n /\ e.key = key} IN IF E = {} THEN 0 ELSE (CHOOSE e \in E : TRUE).q
TabLess(u, n, key) == [u EXCEPT !.tab = {e \in @ : ~(e.n = n /\ e.key = key)}]
LookLess(u, p, q) == [u EXCEPT !.reg[p].look = {x \in @ : x[1] # q}]
Unl(s, p, q) == [s EXCEPT !.links = @ \ {{p, q}}]

PidR(q) == [k |-> "pid", q |-> q]
\* In order of the processes.
ListR(u, n) == LET E == {e \in u.tab : e.n = n}
                   L == SetToSortSeq(E, LAMBDA x, y : x.q < y.q)
               IN [k |-> "list", l |-> [i \in DOMAIN L |-> <<L[i].key, L[i].q>>]]
CountR(u, n) == [k |-> "n", n |-> Cardinality({e \in u.tab : e.n = n})]

HandleR(s, g, u, p, m) ==
  LET q == (CHOOSE x \in u.req : x.m = m).req
      w == u.reg[p]
      c == KeyPid(u, w.n, q.key)
      ans(v) == { Answer(s, g, u, m, v) }
      start == IF ~w.start THEN ans(Err("not_supported"))
               ELSE { St(s, g, [u EXCEPT !.reg[p].todo = <<[k |-> "st", id |-> q.key, m |-> m]>>]) }
  IN CASE q.k = "lookup" -> ans(PidR(c))
       [] q.k = "los"    -> IF c # 0 THEN ans(PidR(c)) ELSE start
       [] q.k = "start"  -> IF c # 0 THEN ans([k |-> "already", q |-> c]) ELSE start
       [] q.k = "count"  -> ans(CountR(u, w.n))
       [] q.k = "list"   -> ans(ListR(u, w.n))
       [] q.k = "stop"   -> IF c = 0 THEN ans(Err("not_found"))
                            ELSE { Answer(ExitSig(Unl(s, p, c), c, p, "c:shutdown"), g, TabLess(LookLess(u, p, c), w.n, q.key), m, [k |-> "ok"]) }
       [] q.k = "remove" -> IF c = 0 THEN ans(PidR(0))
                            ELSE { Answer(Unl(s, p, c), g, TabLess(LookLess(u, p, c), w.n, q.key), m, PidR(c)) }

MessageR(s, g, u, p) ==
  LET w == Loop(s, g, p)
      s1 == Pop(s, p)
  IN CASE w.k \in {"none", "panic"} -> {}
       [] w.k = "stop" -> { St(s1, [g EXCEPT !.srv[p].ph = "term", !.srv[p].rs = w.rs], u) }
       [] w.k = "cb" /\ w.kind = "info" ->
            LET L == {x \in u.reg[p].look : w.it.k = "x" /\ x[1] = w.it.from} IN
            IF L = {} THEN { St(s1, g, u) }
            ELSE LET key == (CHOOSE x \in L : TRUE)[2] IN
                 { St(s1, g, [LookLess(u, p, w.it.from) EXCEPT !.tab = {e \in @ : ~(e.n = u.reg[p].n /\ e.key = key /\ e.q = w.it.from)}]) }
       [] w.k = "cb" /\ w.kind = "call" -> HandleR(s1, g, u, p, w.m)
       [] w.k = "cb" /\ w.kind = "cast" -> LET q == (CHOOSE x \in u.try : x.m = w.m).id IN { St(Unl(s1, p, q), g, LookLess(u, p, q)) }

\* The processes that are registered, in order, and those which have been removed by name.
Known(u, p) == {x[1] : x \in u.reg[p].look}
Mine2(u, p) == {x[1] : x \in {x \in u.reg[p].look : [n |-> u.reg[p].n, key |-> x[2], q |-> x[1]] \in u.tab}}

RECURSIVE MonExit(_, _, _, _)
MonExit(s, p, k, qs) ==
  IF qs = <<>> THEN {s}
  ELSE UNION { MonExit(ExitSig(x.s, Head(qs), p, "c:shutdown"), p, k + 1, Tail(qs))
               : x \in OpMonitorAt(s, p, [ref |-> k, dest |-> <<"pid", Head(qs), "">>, alias |-> "none"], Head(qs)) }

TermR(s, g, u, p) ==
  LET w == u.reg[p]
      g1 == [g EXCEPT !.srv[p].ph = "terming"]
      mine == SetToSortSeq(Mine2(u, p), LAMBDA x, y : x < y)
  IN IF w.sh = -2 THEN { St(s, g1, [u EXCEPT !.reg[p].todo = <<T("end")>>]) }
     ELSE LET s1 == [s EXCEPT !.links = {l \in @ : \A q \in Known(u, p) \ Mine2(u, p) : l # {p, q}}] IN
          { St(x, g1, [u EXCEPT !.k = @ + Len(mine), !.tab = {e \in @ : e.n # w.n}, !.reg[p].ending = TRUE, !.reg[p].look = {y \in @ : y[1] \in Mine2(u, p)},
                         !.reg[p].todo = [i \in DOMAIN mine |-> [k |-> "rw", q |-> mine[i], ref |-> u.k + i - 1]] \o <<T("clear"), T("end")>>])
            : x \in MonExit(s1, p, u.k, mine) }

Rest2(u, p) == [u EXCEPT !.reg[p].todo = Tail(@)]

DoTaskR(s, g, u, p) ==
  LET w == u.reg[p]
      t == Head(w.todo)
      u1 == Rest2(u, p)
  IN CASE t.k = "st" -> {}
       [] t.k = "rw" -> \* the signal may be repeated
            LET u2 == [u1 EXCEPT !.reg[p].todo = <<[k |-> "wait", q |-> t.q, ref |-> t.ref, due |-> IF w.sh < 0 THEN -1 ELSE s.now + w.sh]>> \o @] IN
            { St(ExitSig(s, t.q, p, "c:shutdown"), g, u2), St(s, g, u2) }
       [] t.k = "wait" ->
            (IF DownOf(s, p, t.ref) = {} THEN {}
             ELSE { St([s EXCEPT !.links = @ \ {{p, t.q}},
                                 !.proc[p].mb = SelectSeq(@, LAMBDA it : ~(it.k = "d" /\ it.ref = t.ref) /\ ~(it.k = "x" /\ it.from = t.q))], g, u1) })
            \cup
            (IF t.due >= 0 /\ s.now >= t.due
             THEN { St(ExitSig(s, t.q, p, "kill"), g, [u EXCEPT !.reg[p].todo = <<[t EXCEPT !.due = -1]>> \o Tail(@)]) } ELSE {})
       [] t.k = "clear" -> { St(s, g, [u1 EXCEPT !.reg[p].look = {}]) }
       [] t.k = "initok" -> { St(y.s, [y.g EXCEPT !.srv[p].ph = IF y.g.srv[p].ph = "over" THEN "over" ELSE "idle"], u1) : y \in Result(s, g, p, "ok") }
       [] t.k = "end" -> { St(Fatal(s, p, g.srv[p].rs), [g EXCEPT !.srv[p].ph = "over"], u1) }

RegistrySteps(s, g, u, p) ==
  LET w == u.reg[p] ph == g.srv[p].ph IN
  IF ~w.on \/ ~MayRun(s, p) \/ w.cur \/ ph = "over" THEN {}
  ELSE IF ph = "reg" THEN { St([s EXCEPT !.proc[p].trap = TRUE], [g EXCEPT !.srv[p].ph = "init"], [u EXCEPT !.reg[p].todo = <<T("initok")>>]) }
  ELSE IF ph = "term" THEN TermR(s, g, u, p)
  ELSE IF w.todo # <<>> THEN DoTaskR(s, g, u, p)
  ELSE IF ph = "idle" THEN MessageR(s, g, u, p)
  ELSE {}

\* The registry ends, however it does: what is still registered is killed, nothing else is touched.
RECURSIVE KillAll(_, _, _)
KillAll(s, p, S) == IF S = {} THEN s ELSE LET q == CHOOSE q \in S : TRUE IN KillAll(ExitSig(s, q, p, "kill"), p, S \ {q})

DropSteps(s, g, u, p) ==
  LET w == u.reg[p] IN
  IF ~w.on \/ s.proc[p].st # "dying" \/ w.look = {} THEN {}
  ELSE LET s1 == [s EXCEPT !.links = {l \in @ : \A q \in Known(u, p) : l # {p, q}}]
           die == IF w.ending THEN Known(u, p) ELSE Mine2(u, p)
       IN { St(KillAll(s1, p, die), g, [u EXCEPT !.tab = {e \in @ : ~(e.n = w.n /\ e.q \in Mine2(u, p))}, !.reg[p].look = {}, !.reg[p].todo = <<>>, !.reg[p].cur = FALSE]) }

\* A registry that has ended is dropped before anybody is told about its end.
DieR(s, g, u, q) == IF u.reg[q].on /\ u.reg[q].look # {} THEN {} ELSE { St(t, g, u) : t \in DieAll(s, q) }

\* Events
OpRegStart(s, g, u, p, op) ==
  { [s |-> x.s, g |-> x.g, r |-> x.r,
     u |-> [u EXCEPT !.reg[op.c] = [NoReg EXCEPT !.on = TRUE, !.n = op.n, !.sh = op.sh, !.start = op.start]]] : x \in OpGStart(s, g, p, op) }

OpRCs(s, g, u, p, op) ==
  LET w == u.reg[p] IN
  IF w.on /\ ~w.cur /\ g.srv[p].ph = "idle" /\ w.todo # <<>> /\ Head(w.todo).k = "st" /\ Head(w.todo).id = op.id /\ KeyPid(u, w.n, op.id) = 0
  THEN OneU(s, g, [u EXCEPT !.reg[p].cur = TRUE], "ok") ELSE {}
OpRCsr(s, g, u, p, op) ==
  LET w == u.reg[p]
      t == Head(w.todo)
      u1 == [Rest2(u, p) EXCEPT !.reg[p].cur = FALSE]
      one(x) == OneU(x.s, x.g, x.u, "ok")
  IN IF ~w.cur \/ t.id # op.id THEN {}
     ELSE IF op.res.k = "ok"
     THEN one(Answer(s, g, [u1 EXCEPT !.reg[p].look = @ \cup {<<op.res.c, t.id>>},
                                      !.tab = {e \in @ : ~(e.n = w.n /\ e.key = t.id)} \cup {[n |-> w.n, key |-> t.id, q |-> op.res.c]}], t.m, PidR(op.res.c)))
     ELSE one(Answer(s, g, u1, t.m, [k |-> "starterr", rs |-> op.res.rs]))

\* A request by name is first tried on the table itself.
OpRCall(s, g, u, p, op) ==
  LET q == op.req
      n == op.dest[3]
      c == KeyPid(u, n, q.key)
      u1 == [u EXCEPT !.req = @ \cup {[m |-> op.m, req |-> q]}]
      now(u2, v) == OneU(s, SetWait(g, p, op, [k |-> "now", v |-> v]), u2, "ok")
      call == { [s |-> x.s, g |-> x.g, r |-> x.r, u |-> u1] : x \in OpGCall(s, g, p, op) }
  IN IF op.dest[1] # "name" THEN call
     ELSE CASE q.k = "lookup" -> now(u, PidR(c))
            [] q.k = "count"  -> now(u, CountR(u, n))
            [] q.k = "list"   -> now(u, ListR(u, n))
            [] q.k = "los"    -> IF c # 0 THEN now(u, PidR(c)) ELSE call
            [] q.k = "start"  -> IF c # 0 THEN now(u, [k |-> "already", q |-> c]) ELSE call
            [] q.k = "stop"   -> IF c = 0 THEN now(u, Err("not_found")) ELSE call
            [] q.k = "remove" ->
                 IF c = 0 THEN now(u, PidR(0))
                 ELSE OneU(SendOne(s, op.dest, Item_U("G", u.k)),
                           SetWait(AddMsg(g, [m |-> u.k, k |-> "cast", tag |-> 0, from |-> p, rs |-> ""]), p, op, [k |-> "now", v |-> PidR(c)]),
                           [TabLess(u, n, q.key) EXCEPT !.k = @ + 1, !.try = @ \cup {[m |-> u.k, id |-> c]}], "ok")
OpRCalled(s, g, u, p, op) ==
  LET w == WaitOf(g, p, op) IN
  IF w.k = "now" THEN OneU(s, SetWait(g, p, op, NoWait), u, w.v) ELSE OpSCalled(s, g, u, p, op)

ROutcomes(s, g, u, p, op) ==
  CASE op.o = "regstart" -> OpRegStart(s, g, u, p, op)
    [] op.o = "rcall"    -> OpRCall(s, g, u, p, op)
    [] op.o = "rcalled"  -> OpRCalled(s, g, u, p, op)
    [] op.o = "cs" /\ u.reg[p].on  -> OpRCs(s, g, u, p, op)
    [] op.o = "csr" /\ u.reg[p].on -> OpRCsr(s, g, u, p, op)
    [] OTHER -> SOutcomes(s, g, u, p, op)

REnds == SEnds \cup {"rcalled"}

RSilent(s, g, u) ==
  UNION { SupSteps(s, g, u, p) \cup RegistrySteps(s, g, u, p) \cup DropSteps(s, g, u, p) \cup DieR(s, g, u, p) : p \in Act(s) }
  \cup UNION { { St(x.s, x.g, u) : x \in RegSteps(s, g, c) \cup InitTimeout(s, g, c)
                                     \cup (IF u.sup[c].todo = <<>> /\ u.reg[c].todo = <<>> THEN LoopPanic(s, g, c) ELSE {}) } : c \in Act(s) }
  \cup { St(t, g, u) : t \in FireSteps(s) }

RQuiet(s, g, u) ==
  /\ Quiet(s)
  /\ \A p \in Act(s) : Live(s, p) /\ u.reg[p].on =>
       /\ RegistrySteps(s, g, u, p) = {}
       /\ u.reg[p].cur => Waiting(s, g, p)
       /\ ~u.reg[p].cur /\ u.reg[p].todo # <<>> => Head(u.reg[p].todo).k # "st"
  /\ \A p \in Act(s) : g.wait[p].k # "now" /\ \A x \in g.par[p] : x.w.k # "now"
  \* a registry that runs a start function has not looked at its next message yet
  /\ SQuiet([s EXCEPT !.proc = [q \in Pids |-> IF u.reg[q].on /\ u.reg[q].todo # <<>> THEN [@[q] EXCEPT !.mb = <<>>] ELSE @[q]]], g, u)
=============================================================================
