----------------------------- MODULE DistTrace -----------------------------
(* Validates recorded executions of nodes that are processes of their own. *)
EXTENDS Dist, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, s
vars == <<t, l, s>>
Ev == Traces[t].ev
E == Ev[l]
Cfg == Traces[t].cfg

Hb(c) == [n \in Nodes |-> [hs |-> c.nodes[n].hs, int |-> c.nodes[n].int, to |-> c.nodes[n].to, slack |-> c.slack]]

Init == /\ t \in DOMAIN Traces /\ l = 1
        /\ s = InitS(Hb(Cfg), Cfg.phys)

ToSet2(q) == {q[i] : i \in DOMAIN q}
IsUp(st, c, x) == (c.a = x /\ c.ea \in {"hs", "up", "linger"}) \/ (c.b = x /\ c.eb \in {"hs", "up", "linger"})
Ends(c, x) == IF c.a = x THEN "a" ELSE "b"
Between(c, x, y) == {c.a, c.b} = {x, y} /\ c.met

\* Identities: local exactly at home, equal to itself and to nothing else.
IdOk(n, x) ==
  /\ x.loc = (x.n = n)
  /\ \A i \in DOMAIN x.eq : x.eq[i] = x.e
  /\ \A i \in DOMAIN x.ne : x.ne[i] # x.e
  /\ \A i \in DOMAIN x.oeq : x.oeq[i] = x.e
  /\ \A i \in DOMAIN x.one : x.one[i] # x.e

Bag(S, F(_)) == SortSeq(SetToSeq({<<F(x), x>> : x \in S}), LAMBDA a, b : a[1] < b[1])
Owners(p) == LET q == Bag({m \in s.tm : m.q = p}, LAMBDA m : m.own) IN [i \in DOMAIN q |-> q[i][1]]

SnapOk ==
  /\ Idle(s) /\ ~Overdue(s)
  /\ \A i \in DOMAIN E.nodes :
       LET x == E.nodes[i] n == x.n IN
       /\ x.on = (s.on[n] = "on") /\ x.cur
       /\ ToSet2(x.all) = {p \in Tgts : s.view[n][p].st # "no"} /\ Len(x.all) = Cardinality(ToSet2(x.all))
       /\ ToSet2(x.known) = {p \in Tgts : s.view[n][p].st = "known"}
       /\ ToSet2(x.conn) = {p \in Tgts : s.view[n][p].st = "conn"}
       /\ ToSet2(x.pend) = {p \in Tgts : s.view[n][p].st = "pend"}
       /\ {x.info[j].p : j \in DOMAIN x.info} = {p \in Pids \ Nodes : s.proc[p].n = n /\ s.proc[p].st = "live"}
       /\ \A j \in DOMAIN x.info :
            LET y == x.info[j] IN
            /\ y.trap = s.proc[y.p].trap /\ y.nm = s.proc[y.p].nm
            /\ ToSet2(y.links) = {k[2] : k \in {z \in s.lk : z[1] = y.p}} /\ Len(y.links) = Cardinality(ToSet2(y.links))
            /\ y.monby = Owners(y.p)
  /\ {E.nodes[i].n : i \in DOMAIN E.nodes} = {n \in Nodes : s.on[n] # "dead" /\ n <= Cfg.nn}

Gap(x, y) == s.view[x][y].st = "conn" /\ s.view[y][x].st = "conn" /\ s.stl[x][y] = 0 /\ s.stl[y][x] = 0

Step ==
  CASE E.o = "call" -> IF s.proc[E.p].st \in {"live", "dying"} /\ s.proc[E.p].op.k = "no"
                       THEN {[s EXCEPT !.proc[E.p].op = E.op, !.proc[E.p].ph = 0, !.proc[E.p].at = E.t]} ELSE {}
    [] E.o = "ret" -> IF s.proc[E.p].st \notin {"live", "dying"} \/ s.proc[E.p].ph # 9 THEN {}
                      ELSE IF s.proc[E.p].op.k = "gcall" THEN CallEnd(s, E.p, E.r)
                      ELSE IF s.proc[E.p].res = E.r THEN {[s EXCEPT !.proc[E.p].op = NoOp, !.proc[E.p].ph = 0]} ELSE {}
    [] E.o = "msg" -> IF s.proc[E.p].st \in {"live", "dying"} /\ (E.it.k = "u" => \A i \in DOMAIN E.it.ids : IdOk(NodeOf(s, E.p), E.it.ids[i]))
                      THEN Take(s, E.p, E.it) ELSE {}
    [] E.o = "srv" -> IF s.proc[E.p].st \in {"live", "dying"} THEN Serve(s, E.p, E.k, E.m) ELSE {}
    [] E.o = "gone" -> IF s.proc[E.p].st = "dying"
                       THEN { [s EXCEPT !.proc[E.p].st = "g1", !.proc[E.p].rs = {r}, !.proc[E.p].op = NoOp, !.proc[E.p].mb = <<>>,
                                        !.names = {x \in @ : x[3] # E.p}] : r \in s.proc[E.p].rs } ELSE {}
    [] E.o = "spawn" -> IF s.proc[E.p].st = "none"
                        THEN {[s EXCEPT !.proc[E.p] = [NoProc EXCEPT !.st = "live", !.n = E.n, !.trap = E.trap, !.srv = E.srv]]} ELSE {}
    [] E.o = "start" -> {[s EXCEPT !.on[E.n] = "on"]}
    [] E.o = "kill" -> {KillNode(s, E.n)}
    [] E.o = "cookie" -> {[s EXCEPT !.ck[E.n] = E.v]}
    [] E.o = "cut" -> {[s EXCEPT !.con = [i \in DOMAIN @ |-> IF Between(@[i], E.x, E.y) THEN [@[i] EXCEPT !.brk = {"a", "b"}] ELSE @[i]]]}
    [] E.o = "half" -> {[s EXCEPT !.con = [i \in DOMAIN s.con |->
                                             LET c == s.con[i] IN
                                             IF Between(c, E.x, E.y) /\ c.brk = {} THEN [c EXCEPT !.brk = {Ends(c, E.x)}, !.hf = E.t] ELSE c]]}
    [] E.o = "refuse" -> {[s EXCEPT !.rf = IF E.on THEN @ \cup {<<E.x, E.y>>} ELSE @ \ {<<E.x, E.y>>}]}
    [] E.o = "stall" -> {[s EXCEPT !.stl[E.x][E.y] = IF ~E.on THEN 0 ELSE IF @ # 0 THEN @ ELSE IF E.t = 0 THEN 1 ELSE E.t]}
    [] E.o = "raw" -> {[s EXCEPT !.raw = @ \cup {[id |-> E.id, n |-> E.n, kind |-> E.kind, t |-> E.t]}]}
    [] E.o = "rawend" -> {[s EXCEPT !.raw = @ \ {x}] : x \in {x \in s.raw : x.id = E.id /\ (x.kind = "junk" \/ s.on[x.n] = "dead" \/
                             (E.t >= x.t + s.hb[x.n].hs - 5 /\ E.t <= x.t + s.hb[x.n].hs + s.hb[x.n].slack))}}
    [] E.o = "gap" -> IF Gap(E.x, E.y) => /\ E.max <= s.hb[E.x].int + s.hb[E.x].slack
                                          /\ E.c <= E.w \div s.hb[E.x].int + E.w \div s.hb[E.y].int + 4
                      THEN {s} ELSE {}
    [] E.o = "snap" -> IF SnapOk THEN {s} ELSE {}
    [] E.o = "end" -> IF s.raw = {} THEN {s} ELSE {}
    [] OTHER -> {}

At(x, i) == IF i <= Len(Ev) THEN [x EXCEPT !.now = Ev[i].t] ELSE x
\* A trace is done when one behaviour was found that has all its events; what takes too many states stays undecided.
Limit == 100000
More == TLCGet(t) <= Len(Traces[t].ev) /\ TLCGet(Len(Traces) + t) < Limit

Next1 ==
  /\ l <= Len(Ev)
  /\ \/ \E x \in Step : s' = At(x, l + 1) /\ l' = l + 1
     \/ s' \in Silent(s) /\ l' = l
  /\ UNCHANGED t
Next == More /\ Next1
Spec == Init /\ [][Next]_vars

Track == /\ TLCSet(t, IF TLCGet(t) < l THEN l ELSE TLCGet(t))
         /\ TLCSet(Len(Traces) + t, TLCGet(Len(Traces) + t) + 1)
Zero == \A i \in 1..2 * Len(Traces) : TLCSet(i, 0)
ASSUME Zero
Short == {i \in DOMAIN Traces : TLCGet(i) <= Len(Traces[i].ev)}
Big == {i \in Short : TLCGet(Len(Traces) + i) >= Limit}
Bad == Short \ Big
Accepted == /\ \A i \in Big : PrintT(<<"BIG", i, TLCGet(i)>>)
            /\ \A i \in Bad : PrintT(<<"BAD", i, TLCGet(i)>>)
            /\ PrintT(<<"DONE", Len(Traces), Cardinality(Bad)>>)
=============================================================================
