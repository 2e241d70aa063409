------------------------------ MODULE DistMC ------------------------------
(* Exhaustive check of the design of distribution: a process on each node (N+1 on node 1, N+2 on node 2 and, with three nodes, N+3 on
   node 3), at most MaxOps operations and MaxFaults faults, every interleaving of what happens within nodes and on connections. *)
EXTENDS Dist

CONSTANTS Kinds, Faults, MaxOps, MaxFaults, MaxT, Same, Trap

VARIABLES s, n, h
vars == <<s, n, h>>

A == N + 1
B == N + 2
Procs == (N + 1)..(2 * N)
Has(k) == k \in Kinds

Hb == [x \in Nodes |-> [hs |-> 4, int |-> 1, to |-> 4, slack |-> 1]]

\* h.sent: <<m, from, to>> that have to arrive, unless something is lost; h.got[p]: <<m>>; h.told[ref]: how often; h.x[p]: signals of links
\* h.lk: who made links with B, how often, and whether it gave one up; h.off: monitors given up; h.loss: a connection was lost
Hist == [sent |-> {}, got |-> [p \in Procs |-> <<>>], told |-> [r \in 1..MaxOps |-> 0], x |-> [p \in Procs |-> 0],
         mk |-> [p \in Procs |-> 0], off |-> {}, loss |-> FALSE, f |-> 0, unl |-> FALSE, late |-> FALSE, race |-> FALSE]

Start ==
  LET s0 == InitS(Hb, [t \in Tgts |-> IF t \in Nodes THEN t ELSE IF t = N + 1 THEN 2 ELSE 0])
  IN [s0 EXCEPT !.on = [x \in Nodes |-> "on"], !.ck = [x \in Nodes |-> IF x = 1 /\ ~Same THEN "y" ELSE "x"],
                !.names = {<<2, "a", B>>},
                !.proc = [p \in Pids |-> IF p \in Procs THEN [NoProc EXCEPT !.st = "live", !.n = p - N, !.trap = Trap, !.nm = IF p = B THEN "a" ELSE ""] ELSE @[p]]]

Init == s = Start /\ n = 0 /\ h = Hist

Regress(x, y) == \E i \in Nodes, j \in Tgts : x.view[i][j].st \in {"conn", "pend"} /\ y.view[i][j].st \in {"no", "known"}
\* (A link or monitor whose connection is lost between its being noted and its being asked for may remain on the other side.)
Raced(y) == \E p \in Pids : s.proc[p].ph = 1 /\ LET op == s.proc[p].op IN
              \/ op.k = "link" /\ <<p, op.q>> \notin y.lk
              \/ op.k = "mon" /\ ~\E m \in y.mo : m.ref = op.ref
\* (So may one that is taken in by an end that was given up just then, once there is another connection.)
Lingered(y) == \E i \in DOMAIN s.con : \/ s.con[i].ea = "linger" /\ Len(y.con[i].qb) < Len(s.con[i].qb)
                                       \/ s.con[i].eb = "linger" /\ Len(y.con[i].qa) < Len(s.con[i].qa)
Note(y) == [h EXCEPT !.loss = @ \/ Regress(s, y), !.race = @ \/ Raced(y) \/ Lingered(y)]

P(q) == [k |-> "p", q |-> q]
Nm(t) == [k |-> "n", nm |-> "a", n |-> t]
\* Operations of process p; refs and messages are numbered by the operation.
Ops(p) ==
  LET O(k, S) == IF Has(k) THEN S ELSE {} IN
  IF p \in Nodes
  THEN IF p > 2 /\ N < 3 THEN {} ELSE
       O("connect", {[k |-> "connect", n |-> t] : t \in Nodes \ {p}}) \cup O("ghost", {[k |-> "connect", n |-> N + 1]} )
       \cup O("disconnect", {[k |-> "disconnect", n |-> t] : t \in Nodes \ {p}})
       \cup O("forget", {[k |-> "forget", n |-> t] : t \in Nodes \ {p}})
       \cup O("stop", {[k |-> "stop"]})
  ELSE LET F == Procs \ {p} IN
       O("send", {[k |-> "send", m |-> n + 1, kn |-> <<>>, ds |-> <<P(q)>>] : q \in F})
       \cup O("sendname", IF p = B THEN {} ELSE {[k |-> "send", m |-> n + 1, kn |-> <<>>, ds |-> <<Nm(2)>>]})
       \cup O("sendall", IF p = B THEN {} ELSE {[k |-> "send", m |-> n + 1, kn |-> <<>>, ds |-> <<P(B), P(p), Nm(2)>>]})
       \cup (IF p = A THEN O("link", {[k |-> "link", q |-> B]}) \cup O("unlink", {[k |-> "unlink", q |-> B]}) ELSE {})
       \cup O("linkback", IF p = B THEN {[k |-> "link", q |-> A]} ELSE {})
       \cup O("exit", {[k |-> "exit", q |-> q, rs |-> rs] : q \in F, rs \in {"c:e", "kill"}})
       \cup (IF p = A THEN O("mon", {[k |-> "mon", ref |-> n + 1, d |-> P(B)]})
                           \cup O("monname", {[k |-> "mon", ref |-> n + 1, d |-> Nm(2)]})
                           \cup O("demon", {[k |-> "demon", ref |-> r] : r \in {m.ref : m \in {m \in s.pm : m.own = A /\ m.t # -1}}})
                           \cup O("nodemon", {[k |-> "nodemon", ref |-> n + 1, n |-> t] : t \in {2} \cup (IF Has("ghost") THEN {N + 1} ELSE {})})
                           \cup O("nodedemon", {[k |-> "nodedemon", ref |-> r] : r \in {m.ref : m \in {m \in s.pm : m.own = A /\ m.t = -1}}})
             ELSE {})
       \cup O("ret", {[k |-> "ret"]})

View(p, t) == s.view[NodeOf(s, p)][t].st
OpStep ==
  /\ n < MaxOps
  /\ \E p \in Nodes \cup Procs : s.proc[p].st = "live" /\ s.proc[p].op.k = "no" /\
       \E op \in Ops(p) :
         /\ s' = [s EXCEPT !.proc[p].op = op, !.proc[p].ph = 0, !.proc[p].at = s.now]
         /\ h' = [h EXCEPT !.sent = IF op.k = "send" THEN @ \cup {<<op.m, p, IF op.ds[i].k = "n" THEN B ELSE op.ds[i].q>> :
                                                       i \in {i \in DOMAIN op.ds : DestNode(s, op.ds[i]) = NodeOf(s, p) \/ View(p, DestNode(s, op.ds[i])) \in {"conn", "pend"}}} ELSE @,
                           !.mk[IF p \in Procs THEN p ELSE A] = IF op.k = "link" THEN @ + 1 ELSE @,
                           !.unl = @ \/ op.k = "unlink"]
  /\ n' = n + 1

\* An operation returns.
RetStep ==
  \E p \in Act(s) : /\ s.proc[p].ph = 9
                    /\ s' = [s EXCEPT !.proc[p].op = NoOp, !.proc[p].ph = 0]
                    /\ h' = [h EXCEPT !.off = IF s.proc[p].op.k \in {"demon", "nodedemon"} THEN @ \cup {s.proc[p].op.ref} ELSE @]
                    /\ n' = n

GoneStep ==
  \E p \in Procs : s.proc[p].st = "dying" /\
    \E r \in s.proc[p].rs : /\ s' = [s EXCEPT !.proc[p].st = "g1", !.proc[p].rs = {r}, !.proc[p].op = NoOp, !.proc[p].mb = <<>>,
                                              !.names = {x \in @ : x[3] # p}]
                            /\ UNCHANGED <<n, h>>

ReadStep ==
  \E p \in Procs : s.proc[p].st = "live" /\ s.proc[p].op.k = "no" /\ s.proc[p].mb # <<>> /\
    LET i == Head(s.proc[p].mb) IN
      /\ \E y \in Take(s, p, CASE i.k = "u" -> [k |-> "u", m |-> i.m, ok |-> TRUE] [] OTHER -> i) :
           /\ s' = y
           /\ h' = [h EXCEPT !.got[p] = IF i.k = "u" THEN Append(@, i.m) ELSE @,
                             !.told = IF i.k \in {"d", "nd"} THEN [@ EXCEPT ![i.ref] = @ + 1] ELSE @,
                             !.late = @ \/ (i.k \in {"d", "nd"} /\ i.ref \in h.off),
                             !.x[p] = IF i.k = "x" /\ i.rs \notin {"c:e"} THEN @ + 1 ELSE @]
      /\ n' = n

SilentStep == \E y \in Silent(s) : s' = y /\ h' = Note(y) /\ n' = n

FaultStep ==
  /\ h.f < MaxFaults
  /\ \E k \in Faults :
       \/ k = "cut" /\ \E i \in DOMAIN s.con : s.con[i].met /\ s.con[i].brk = {} /\ s' = [s EXCEPT !.con[i].brk = {"a", "b"}]
       \/ k = "half" /\ \E i \in DOMAIN s.con, e \in {"a", "b"} : s.con[i].met /\ s.con[i].brk = {} /\ s' = [s EXCEPT !.con[i].brk = {e}, !.con[i].hf = s.now]
       \/ k = "refuse" /\ s' = [s EXCEPT !.rf = {<<1, 2>>, <<2, 1>>}] /\ s' # s
       \/ k = "accept" /\ s' = [s EXCEPT !.rf = {}] /\ s' # s
       \/ k = "kill" /\ s.on[2] # "dead" /\ s' = KillNode(s, 2)
       \/ k = "stall" /\ \E e \in {<<1, 2>>, <<2, 1>>} : s.stl[e[1]][e[2]] = 0 /\ s' = [s EXCEPT !.stl[e[1]][e[2]] = s.now]
       \/ k = "flow" /\ \E e \in {<<1, 2>>, <<2, 1>>} : s.stl[e[1]][e[2]] # 0 /\ s' = [s EXCEPT !.stl[e[1]][e[2]] = 0]
       \/ k = "start" /\ \E x \in Nodes : s.on[x] = "off" /\ s' = [s EXCEPT !.on[x] = "on"]
  /\ h' = [Note(s') EXCEPT !.f = @ + 1]
  /\ n' = n

\* Time passes once there is nothing else to be done, and not beyond what is due.
Ticked == [s EXCEPT !.now = @ + 1]
Tick == /\ s.now < MaxT /\ Idle(s) /\ ~Overdue(Ticked) /\ s' = Ticked /\ UNCHANGED <<n, h>>

Next == OpStep \/ RetStep \/ GoneStep \/ ReadStep \/ SilentStep \/ FaultStep \/ Tick
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Alive(p) == s.proc[p].st = "live"
Quiet == Idle(s) /\ \A p \in Nodes : s.proc[p].op.k = "no"
Clear == \A i \in DOMAIN s.con : s.con[i].brk \in {{}, {"a", "b"}} /\ s.stl = [x \in Nodes |-> [y \in Nodes |-> 0]]
Conn(x, y) == s.view[x][y].st = "conn"

\* Messages arrive in the order of their sender, once, and all of them unless something is lost.
From(m) == IF \E t \in h.sent : t[1] = m THEN (CHOOSE t \in h.sent : t[1] = m)[2] ELSE 0
InOrder == \A p \in Procs : \A i, j \in DOMAIN h.got[p] : i < j =>
             LET a == h.got[p][i] b == h.got[p][j] IN From(a) = From(b) => a <= b
Once == \A p \in Procs : \A m \in 1..MaxOps : Cardinality({i \in DOMAIN h.got[p] : h.got[p][i] = m}) <= IF Has("sendall") THEN 2 ELSE 1
AllArrive == (Quiet /\ Clear /\ ~h.loss /\ h.f = 0) => \A t \in h.sent : (Alive(t[3]) /\ (Alive(t[2]))) => \E i \in DOMAIN h.got[t[3]] : h.got[t[3]][i] = t[1]

\* A monitor fires at most once and not after it was given up; while it stands, it is known on both sides, and its target is there.
AtMostOnce == ~h.late /\ \A r \in DOMAIN h.told : h.told[r] <= 1
Stands == Quiet /\ Clear =>
  /\ h.race \/ \A m \in s.pm : m.t \in Procs =>
       /\ Alive(m.t) /\ Conn(NodeOf(s, m.own), NodeOf(s, m.t))
       /\ \E z \in s.mo : z.ref = m.ref
       /\ \E z \in s.tm : z.ref = m.ref /\ z.q = m.t
  /\ \A m \in s.pm : m.t # 0
  /\ \A m \in s.pm : m.t = -1 => \E z \in s.nmon : z.ref = m.ref /\ Conn(NodeOf(s, z.own), z.n)
  /\ \A y \in s.mo \cup s.nmon : \E m \in s.pm : m.ref = y.ref
Forgotten == (Quiet /\ Clear /\ ~h.race) => \A x \in s.tm : NodeOf(s, x.own) # NodeOf(s, x.q) => \E m \in s.pm : m.ref = x.ref
Known == \A x \in s.als : s.proc[x.own].st # "dead"

\* Links are known on both sides or on none, and somebody who had one and has no more was told, unless it was given up.
BothWays == (Quiet /\ Clear /\ ~h.race) => \A x \in s.lk : Alive(x[1]) /\ <<x[2], x[1]>> \in s.lk /\ Conn(NodeOf(s, x[1]), NodeOf(s, x[2]))
Told == (Quiet /\ Clear /\ Trap /\ ~h.unl /\ Alive(A) /\ h.mk[A] > 0) => (<<A, B>> \in s.lk \/ h.x[A] >= 1)
TellOnce == (~Has("exit") /\ Trap) => \A p \in {A, B} : h.x[p] <= h.mk[A] + h.mk[B]

\* Views, connections and their ends belong together.
ViewOk == \A x \in {x \in Nodes : s.on[x] # "dead"}, t \in Tgts :
  LET v == s.view[x][t] IN
  /\ v.st = "conn" => LET c == s.con[v.c] IN (c.a = x /\ c.tgt = t /\ c.ea = "up") \/ (c.b = x /\ c.a = t /\ c.eb = "up")
  /\ v.st = "pend" => LET c == s.con[v.c] IN c.a = x /\ c.tgt = t /\ c.ea = "hs"
  /\ v.st # "pend" => s.pend[x][t] = <<>>
OneEach == \A x \in Nodes, t \in Nodes : Cardinality({i \in DOMAIN s.con : (s.con[i].a = x /\ s.con[i].tgt = t /\ s.con[i].ea = "up") \/ (s.con[i].b = x /\ s.con[i].a = t /\ s.con[i].eb = "up")}) <= 1
Agreed == (Quiet /\ Clear) => \A x, y \in {x \in Nodes : s.on[x] # "dead"} : (x # y /\ Conn(x, y)) => (Conn(y, x) /\ s.view[x][y].c = s.view[y][x].c)
Settled == Quiet /\ Clear => \A x \in {x \in Nodes : s.on[x] # "dead"}, t \in Tgts : s.view[x][t].st # "pend"
Trusted == \A x \in {x \in Nodes : s.on[x] # "dead"}, t \in Tgts : Conn(x, t) => (t \in Nodes /\ s.ck[x] = s.ck[t])
OffOk == \A x \in Nodes : (s.on[x] = "off" /\ s.proc[x].op.k = "no") => \A t \in Tgts : ~Conn(x, t)

\* Time: silence is noticed, and nothing but silence is; and what is due can be done.
Healthy == (Same /\ h.f = 0 /\ ~Has("disconnect") /\ ~Has("forget") /\ ~Has("stop") /\ ~Has("ghost") /\ Cardinality(Kinds \cap {"connect"}) = 1 /\ n <= 1) => ~h.loss
Noticed == \A i \in DOMAIN s.con : LET c == s.con[i] IN
             /\ (c.ea = "up" /\ s.stl[c.b][c.a] # 0) => s.now <= s.stl[c.b][c.a] + Hb[c.a].to + Hb[c.a].slack
             /\ (c.eb = "up" /\ s.stl[c.a][c.b] # 0) => s.now <= s.stl[c.a][c.b] + Hb[c.b].to + Hb[c.b].slack
             /\ c.ea = "hs" => s.now <= c.t0 + Hb[c.a].hs + Hb[c.a].slack
NotStuck == (Idle(s) /\ Overdue(Ticked)) => Silent(s) # {}
=============================================================================
