-------------------------------- MODULE Sup --------------------------------
(***************************************************************************)
(* Supervisors on top of GenServers (Gen) and the process runtime (Core).  *)
(* A supervisor is a server whose callbacks are the programs below.  A     *)
(* program is a sequence of tasks, todo; each task is one step, except     *)
(* that the start function of a child is user code between the events cs   *)
(* (called) and csr (returned).                                            *)
(***************************************************************************)
EXTENDS Gen

NoSup == [on |-> FALSE, kids |-> <<>>, strat |-> "", auto |-> "", maxr |-> 0, maxd |-> 0, hist |-> <<>>, todo |-> <<>>, cur |-> FALSE]

\* k: fresh numbers for what the runtime makes itself; req: requests by message number; res: results by reply number; try: retries by message
InitU == [sup |-> [q \in Pids |-> NoSup], k |-> 100000, req |-> {}, res |-> {}, try |-> {}]

Temp(kid) == kid.restart = "temporary"
Idx(w, id) == LET I == {i \in DOMAIN w.kids : w.kids[i].id = id} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
IdxPid(w, q) == LET I == {i \in DOMAIN w.kids : w.kids[i].pid = q} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE

Kid(spec) == [id |-> spec.id, restart |-> spec.restart, sh |-> spec.sh, sig |-> spec.sig, typ |-> spec.typ, pid |-> 0, rst |-> FALSE]
\* The time a child has to end: -2 it is killed at once, -1 forever.
Grace(kid) == IF kid.sh # -3 THEN kid.sh ELSE IF kid.typ = "worker" THEN 5000 ELSE -1

St(s, g, u) == [s |-> s, g |-> g, u |-> u]

T_st(id, w, m) == [k |-> "st", id |-> id, w |-> w, m |-> m]
T_stop(id) == [k |-> "stop", id |-> id]
T(k) == [k |-> k]

Starts(kids, w) == [i \in DOMAIN kids |-> T_st(kids[i].id, w, 0)]
StopsRev(kids) == [i \in DOMAIN kids |-> T_stop(kids[Len(kids) + 1 - i].id)]

\* The callback returned an error: the supervisor terminates.
GiveUp(s, g, u, p) == { St(s, [g EXCEPT !.srv[p].ph = "term", !.srv[p].rs = "c:shutdown"], [u EXCEPT !.sup[p].todo = <<>>]) }

\* The restarts still within the window, and the new one.
Hist(s, w) == SelectSeq(w.hist, LAMBDA t : s.now - t <= w.maxd) \o <<s.now>>

\* The program that restarts from child i.
Program(w, i) ==
  IF w.strat = "one_for_one" THEN <<T_st(w.kids[i].id, "restart", 0)>>
  ELSE LET from == IF w.strat = "one_for_all" THEN 1 ELSE i
           aff == {j \in from..Len(w.kids) : TRUE}
           ids == {w.kids[j].id : j \in aff \ {i}}
           keep == SelectSeq(SubSeq(w.kids, from, Len(w.kids)), LAMBDA x : ~Temp(x))
       IN <<[k |-> "stopall", ids |-> ids], [k |-> "rmtemps", ids |-> ids]>> \o Starts(keep, "restart")

Restart(s, g, u, p, i) ==
  LET h == Hist(s, u.sup[p])
      u1 == [u EXCEPT !.sup[p].hist = h, !.sup[p].kids[i].pid = 0]
  IN IF Len(h) > u.sup[p].maxr THEN GiveUp(s, g, u1, p)
     ELSE { St(s, g, [u1 EXCEPT !.sup[p].todo = Program(u1.sup[p], i)]) }

AutoShut(w, kid) ==
  /\ kid.sig
  /\ \/ w.auto = "any"
     \/ w.auto = "all" /\ \A i \in DOMAIN w.kids : w.kids[i].sig => w.kids[i].pid = 0 /\ ~w.kids[i].rst

\* Child i has exited with reason rs.
Exited(s, g, u, p, i, rs) ==
  LET w == u.sup[p]
      kid == w.kids[i]
      calm == rs \in {"normal", "c:shutdown"}
  IN IF kid.restart = "permanent" \/ (kid.restart = "transient" /\ ~calm) THEN Restart(s, g, u, p, i)
     ELSE LET u1 == [u EXCEPT !.sup[p].kids = IF Temp(kid) THEN RemoveAt(@, i) ELSE [@ EXCEPT ![i].pid = 0]]
          IN IF AutoShut(u1.sup[p], kid) THEN GiveUp(s, g, u1, p) ELSE { St(s, g, u1) }

\* The reply to call number m.
Answer(s, g, u, m, v) ==
  LET y == Reply(s, g, m, u.k) IN St(y.s, y.g, [u EXCEPT !.k = @ + 1, !.res = @ \cup {[m |-> u.k, v |-> v]}])

Err(e) == [k |-> "err", e |-> e]
Which(w) == [i \in DOMAIN w.kids |-> <<w.kids[i].id, w.kids[i].pid, w.kids[i].typ, w.kids[i].rst>>]
Cnt(w, P(_)) == Cardinality({i \in DOMAIN w.kids : P(w.kids[i])})
Counts(w) == [k |-> "count", specs |-> Len(w.kids), active |-> Cnt(w, LAMBDA x : x.pid # 0),
              sups |-> Cnt(w, LAMBDA x : x.typ = "supervisor"), works |-> Cnt(w, LAMBDA x : x.typ = "worker")]

Handle(s, g, u, p, m) ==
  LET q == (CHOOSE x \in u.req : x.m = m).req
      w == u.sup[p]
      i == Idx(w, q.id)
      kid == w.kids[i]
      ans(v) == { Answer(s, g, u, m, v) }
  IN CASE q.k = "count" -> ans(Counts(w))
       [] q.k = "which" -> ans([k |-> "which", l |-> Which(w)])
       [] q.k = "start" ->
            IF i # 0 THEN ans(Err(IF kid.pid # 0 THEN "already_started" ELSE "already_present"))
            ELSE { St(s, g, [u EXCEPT !.sup[p].kids = Append(@, Kid(q.spec)), !.sup[p].todo = <<T_st(q.id, "api", m)>>]) }
       [] q.k = "term" ->
            IF i = 0 THEN ans(Err("not_found"))
            ELSE { St(s, g, [u EXCEPT !.sup[p].todo = <<T_stop(q.id), [k |-> "rmtemps", ids |-> {q.id}], [k |-> "answer", m |-> m]>>]) }
       [] q.k = "restart" ->
            IF i = 0 THEN ans(Err("not_found"))
            ELSE IF kid.rst THEN ans(Err("restarting"))
            ELSE IF kid.pid # 0 THEN ans(Err("running"))
            ELSE { St(s, g, [u EXCEPT !.sup[p].todo = <<T_st(q.id, "apir", m)>>]) }
       [] q.k = "delete" ->
            IF i = 0 THEN ans(Err("not_found"))
            ELSE IF kid.rst THEN ans(Err("restarting"))
            ELSE IF kid.pid # 0 THEN ans(Err("running"))
            ELSE { Answer(s, g, [u EXCEPT !.sup[p].kids = RemoveAt(@, i)], m, [k |-> "ok"]) }

\* One step of an idle supervisor: it handles the first message.
Message(s, g, u, p) ==
  LET w == Loop(s, g, p)
      s1 == Pop(s, p)
  IN CASE w.k = "none" -> {}
       [] w.k = "panic" -> {}   \* LoopPanic
       [] w.k = "stop" -> { St(s1, [g EXCEPT !.srv[p].ph = "term", !.srv[p].rs = w.rs], u) }
       [] w.k = "cb" /\ w.kind = "info" ->
            IF w.it.k = "x" /\ IdxPid(u.sup[p], w.it.from) # 0
            THEN Exited(s1, g, u, p, IdxPid(u.sup[p], w.it.from), w.it.rs)
            ELSE { St(s1, g, u) }
       [] w.k = "cb" /\ w.kind = "call" -> Handle(s1, g, u, p, w.m)
       [] w.k = "cb" /\ w.kind = "cast" ->
            LET i == Idx(u.sup[p], (CHOOSE x \in u.try : x.m = w.m).id) IN
            IF i # 0 /\ u.sup[p].kids[i].rst THEN Restart(s1, g, u, p, i) ELSE { St(s1, g, u) }

Rest1(u, p) == [u EXCEPT !.sup[p].todo = Tail(@)]

DownOf(s, p, ref) == {i \in DOMAIN s.proc[p].mb : s.proc[p].mb[i].k = "d" /\ s.proc[p].mb[i].ref = ref}

DoTask(s, g, u, p) ==
  LET w == u.sup[p]
      t == Head(w.todo)
      u1 == Rest1(u, p)
  IN CASE t.k = "st" -> {}
       [] t.k = "stop" ->
            LET i == Idx(w, t.id) IN
            IF i = 0 THEN { St(s, g, u1) }
            ELSE LET kid == w.kids[i]
                     u2 == [u1 EXCEPT !.sup[p].kids[i].pid = 0, !.sup[p].kids[i].rst = FALSE]
                 IN IF kid.pid = 0 THEN { St(s, g, u2) }
                    ELSE LET gr == Grace(kid) IN
                         { St(ExitSig(x.s, kid.pid, p, IF gr = -2 THEN "kill" ELSE "c:shutdown"), g,
                              [u2 EXCEPT !.k = @ + 1,
                                         !.sup[p].todo = <<[k |-> "wait", q |-> kid.pid, ref |-> u.k, due |-> IF gr < 0 THEN -1 ELSE s.now + gr]>> \o @])
                           : x \in OpMonitorAt(s, p, [ref |-> u.k, dest |-> <<"pid", kid.pid, "">>, alias |-> "none"], kid.pid) }
       [] t.k = "wait" ->
            (IF DownOf(s, p, t.ref) = {} THEN {}
             ELSE { St([s EXCEPT !.links = @ \ {{p, t.q}},
                                 !.proc[p].mb = SelectSeq(@, LAMBDA it : ~(it.k = "d" /\ it.ref = t.ref) /\ ~(it.k = "x" /\ it.from = t.q))], g, u1) })
            \cup
            (IF t.due >= 0 /\ s.now >= t.due
             THEN { St(ExitSig(s, t.q, p, "kill"), g, [u EXCEPT !.sup[p].todo = <<[t EXCEPT !.due = -1]>> \o Tail(@)]) } ELSE {})
       [] t.k = "stopall" -> IF t.ids = {} THEN { St(s, g, u1) }
                             ELSE { St(s, g, [u EXCEPT !.sup[p].todo = <<T_stop(id), [t EXCEPT !.ids = @ \ {id}]>> \o Tail(@)]) : id \in t.ids }
       [] t.k = "rmtemps" -> { St(s, g, [u1 EXCEPT !.sup[p].kids = SelectSeq(@, LAMBDA x : ~(Temp(x) /\ x.id \in t.ids))]) }
       [] t.k = "answer" -> { Answer(s, g, u1, t.m, [k |-> "ok"]) }
       [] t.k = "initok" -> { St(y.s, [y.g EXCEPT !.srv[p].ph = IF y.g.srv[p].ph = "over" THEN "over" ELSE "idle"], u1) : y \in Result(s, g, p, "ok") }
       [] t.k = "fail" -> { St(IF y.g.srv[p].ph = "over" THEN y.s ELSE Fatal(y.s, p, "c:failed_to_start_child"), [y.g EXCEPT !.srv[p].ph = "over"], u1)
                             : y \in Result(s, g, p, "c:failed_to_start_child") }
       [] t.k = "end" -> { St(Fatal(s, p, g.srv[p].rs), [g EXCEPT !.srv[p].ph = "over"], u1) }

\* What the supervisor p does by itself.
SupSteps(s, g, u, p) ==
  LET w == u.sup[p] ph == g.srv[p].ph IN
  IF ~w.on \/ ~MayRun(s, p) \/ w.cur \/ ph = "over" THEN {}
  ELSE IF ph = "reg" THEN { St([s EXCEPT !.proc[p].trap = TRUE], [g EXCEPT !.srv[p].ph = "init"],
                               [u EXCEPT !.sup[p].todo = Starts(w.kids, "init") \o <<T("initok")>>]) }
  ELSE IF ph = "term" THEN { St(s, [g EXCEPT !.srv[p].ph = "terming"], [u EXCEPT !.sup[p].todo = StopsRev(w.kids) \o <<T("end")>>]) }
  ELSE IF w.todo # <<>> THEN DoTask(s, g, u, p)
  ELSE IF ph = "idle" THEN Message(s, g, u, p)
  ELSE {}

OneU(s, g, u, r) == {[s |-> s, g |-> g, u |-> u, r |-> r]}

\* Events.  The supervisor calls the start function of a child.
OpCs(s, g, u, p, op) ==
  LET w == u.sup[p] IN
  IF w.on /\ ~w.cur /\ g.srv[p].ph \in {"init", "idle"} /\ w.todo # <<>> /\ Head(w.todo).k = "st" /\ Head(w.todo).id = op.id
     /\ Idx(w, op.id) # 0 /\ (LET q == w.kids[Idx(w, op.id)].pid IN q = 0 \/ ~Exists(s, q))
  THEN OneU(s, g, [u EXCEPT !.sup[p].cur = TRUE], "ok") ELSE {}

\* It returned.  op.res: ok c, err rs
OpCsr(s, g, u, p, op) ==
  LET w == u.sup[p]
      t == Head(w.todo)
      i == Idx(w, op.id)
      u1 == [Rest1(u, p) EXCEPT !.sup[p].cur = FALSE]
      fine == op.res.k = "ok" \/ op.res.rs = "ignore"
      q == IF op.res.k = "ok" THEN op.res.c ELSE 0
      gone == Temp(w.kids[i]) /\ q = 0 /\ t.w \in {"init", "api"}
      u2 == [u1 EXCEPT !.sup[p].kids = IF gone THEN RemoveAt(@, i) ELSE [@ EXCEPT ![i].pid = q, ![i].rst = FALSE]]
      one(x) == OneU(x.s, x.g, x.u, "ok")
  IN IF ~w.cur \/ t.id # op.id THEN {}
     ELSE CASE t.w = "init" ->
                IF fine THEN OneU(s, g, u2, "ok")
                ELSE OneU(s, g, [u1 EXCEPT !.sup[p].todo = StopsRev(w.kids) \o <<T("fail")>>], "ok")
            [] t.w \in {"api", "apir"} ->
                IF fine THEN one(Answer(s, g, u2, t.m, [k |-> "pid", q |-> q]))
                ELSE one(Answer(s, g, u1, t.m, [k |-> "starterr", rs |-> op.res.rs]))
            [] t.w = "restart" ->
                IF fine THEN OneU(s, g, u2, "ok")
                ELSE OneU(Deliver(s, p, Item_U("G", u.k)),
                          AddMsg(g, [m |-> u.k, k |-> "cast", tag |-> 0, from |-> p, rs |-> ""]),
                          [u1 EXCEPT !.sup[p].todo = <<>>, !.sup[p].kids[i].rst = TRUE, !.k = @ + 1, !.try = @ \cup {[m |-> u.k, id |-> op.id]}], "ok")

OpSupStart(s, g, u, p, op) ==
  { [s |-> x.s, g |-> x.g, r |-> x.r,
     u |-> [u EXCEPT !.sup[op.c] = [NoSup EXCEPT !.on = TRUE, !.kids = [i \in DOMAIN op.kids |-> Kid(op.kids[i])],
              !.strat = op.strat, !.auto = op.auto, !.maxr = op.maxr, !.maxd = op.maxd]]] : x \in OpGStart(s, g, p, op) }

OpSCall(s, g, u, p, op) ==
  { [s |-> x.s, g |-> x.g, r |-> x.r, u |-> [u EXCEPT !.req = @ \cup {[m |-> op.m, req |-> op.req]}]] : x \in OpGCall(s, g, p, op) }
OpSCalled(s, g, u, p, op) ==
  { [s |-> x.s, g |-> x.g, u |-> u,
     r |-> IF x.r.k = "ok" THEN (CHOOSE y \in u.res : y.m = x.r.m).v ELSE x.r] : x \in OpGCalled(s, g, p, op) }

SOutcomes(s, g, u, p, op) ==
  CASE op.o = "supstart" -> OpSupStart(s, g, u, p, op)
    [] op.o = "scall"    -> OpSCall(s, g, u, p, op)
    [] op.o = "scalled"  -> OpSCalled(s, g, u, p, op)
    [] op.o = "cs"       -> OpCs(s, g, u, p, op)
    [] op.o = "csr"      -> OpCsr(s, g, u, p, op)
    [] OTHER -> { [s |-> x.s, g |-> x.g, u |-> u, r |-> x.r] : x \in GOutcomes(s, g, p, op) }

SEnds == Ends \cup {"scalled"}

SSilent(s, g, u) ==
  UNION { SupSteps(s, g, u, p) : p \in Act(s) }
  \cup UNION { { St(x.s, x.g, u) : x \in RegSteps(s, g, c) \cup InitTimeout(s, g, c)
                                     \cup (IF u.sup[c].todo = <<>> THEN LoopPanic(s, g, c) ELSE {}) } : c \in Act(s) }
  \cup { St(t, g, u) : t \in FireSteps(s) \cup UNION { DieAll(s, q) : q \in Act(s) } }

\* Like Gen's, with the supervisors' own way of being idle.
SQuiet(s, g, u) ==
  /\ Quiet(s)
  /\ \A p \in Act(s) : Live(s, p) =>
       /\ u.sup[p].on =>
            /\ SupSteps(s, g, u, p) = {}
            /\ u.sup[p].cur => Waiting(s, g, p)
            /\ ~u.sup[p].cur /\ u.sup[p].todo # <<>> => Head(u.sup[p].todo).k # "st"
            /\ g.srv[p].ph \notin {"new", "over"}
            /\ g.srv[p].ph = "init" => g.srv[p].due < 0 \/ s.now < g.srv[p].due
            /\ (g.srv[p].ph = "idle" /\ u.sup[p].todo = <<>>) => Loop(s, g, p).k = "none"
       /\ ~u.sup[p].on =>
            /\ g.srv[p].ph \notin {"new", "reg", "term", "over"}
            /\ g.srv[p].ph = "idle" => Loop(s, g, p).k = "none"
            /\ g.srv[p].ph = "init" => g.srv[p].due < 0 \/ s.now < g.srv[p].due
       /\ Unended(s, g, p, g.wait[p])
       /\ \A x \in g.par[p] : Unended(s, g, p, x.w)
==============================================================================
