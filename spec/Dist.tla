------------------------------- MODULE Dist -------------------------------
(***************************************************************************)
(* Distributed nodes: connections and what travels over them, the view a   *)
(* node has of the others, and the links, monitors, exit signals and       *)
(* messages between processes of different nodes.                          *)
(*                                                                         *)
(* Nodes are 1..N; a node may also be asked for under targets that are not *)
(* one of them: N+1, a wrong name at the address of a node, and N+2, an    *)
(* address nobody listens at; phys says which node answers for a target.   *)
(* Process ids are 1..MaxP; 1..N stand for the administration of a node,   *)
(* which issues orders but is otherwise out of the picture.                *)
(*                                                                         *)
(* A connection is established in two independent halves: the node that    *)
(* asked completes when it has the greeting of the expected node, the node *)
(* that was asked accepts when it has the greeting of the asking one and   *)
(* is not connected to it already.  Frames travel in order in each         *)
(* direction and may be lost only at the end of a connection.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS N, MaxP

Nodes == 1..N
Tgts  == 1..(N + 2)
Pids  == 1..MaxP

NoOp == [k |-> "no"]
NoView == [st |-> "no", c |-> 0]

R0 == [k |-> "ok", m |-> 0, rs |-> ""]
Rm(m) == [k |-> "ok", m |-> m, rs |-> ""]

\* ph: how far the operation is, from 0 to 9 (done); res: its result
NoProc == [st |-> "none", n |-> 0, rs |-> {}, trap |-> FALSE, nm |-> "", mb |-> <<>>, op |-> NoOp, ph |-> 0, res |-> R0, at |-> 0, srv |-> FALSE]

InitS(hb, phys) ==
  [ on   |-> [n \in Nodes |-> "off"],
    ck   |-> [n \in Nodes |-> ""],
    view |-> [n \in Nodes |-> [p \in Tgts |-> NoView]],
    pend |-> [n \in Nodes |-> [p \in Tgts |-> <<>>]],
    con  |-> <<>>,
    proc |-> [p \in Pids |-> IF p \in Nodes THEN [NoProc EXCEPT !.st = "live", !.n = p] ELSE NoProc],
    lk   |-> {},       \* <<p, q>>: the node of p knows that p is linked to q
    mo   |-> {},       \* [ref, own, n, d]: monitors of processes elsewhere, at the node of the owner
    pm   |-> {},       \* [ref, own, t]: what a process has in its table (t: process, 0 not known, -1 a node)
    tm   |-> {},       \* [ref, own, q, d]: monitors on a process, at its node
    nmon |-> {},       \* [ref, own, n]: node monitors
    als  |-> {},       \* [ref, own, reply]
    names|-> {},       \* <<n, name, p>>
    fire |-> {},       \* notifications on their way within a node
    rf   |-> {},       \* <<x, y>>: connections from x to y are refused
    stl  |-> [x \in Nodes |-> [y \in Nodes |-> 0]],   \* when the bytes from x to y stopped
    held |-> {},       \* <<n, m, ref, own>>: calls that servers of a node have been given
    raw  |-> {},       \* [id, n, kind, t]: strangers
    now  |-> 1,
    hb   |-> hb, phys |-> phys ]

NodeOf(s, p) == s.proc[p].n
Exists(s, q) == q \in Pids /\ s.proc[q].st \in {"live", "dying"}
IsLocal(s, n, q) == NodeOf(s, q) = n

Deliver(s, q, it) == IF Exists(s, q) THEN [s EXCEPT !.proc[q].mb = Append(@, it)] ELSE s
Fatal(s, q, rs) == [s EXCEPT !.proc[q].st = "dying", !.proc[q].rs = @ \cup {rs}]

ExitSig(s, q, from, rs) ==
  IF ~Exists(s, q) THEN s
  ELSE IF rs = "kill" \/ q = from THEN Fatal(s, q, rs)
  ELSE IF s.proc[q].trap THEN Deliver(s, q, [k |-> "x", from |-> from, rs |-> rs])
  ELSE IF rs \in {"normal", "ignore"} THEN s
  ELSE Fatal(s, q, rs)

LinkSig(s, q, from, rs) ==
  IF ~Exists(s, q) THEN s
  ELSE IF s.proc[q].trap THEN Deliver(s, q, [k |-> "x", from |-> from, rs |-> rs])
  ELSE IF rs = "normal" THEN s
  ELSE Fatal(s, q, rs)

AliasOff(s, ref) == [s EXCEPT !.als = {a \in @ : a.ref # ref}]
AliasSend(s, n, ref, it) ==
  LET A == {a \in s.als : a.ref = ref /\ NodeOf(s, a.own) = n} IN
  IF A = {} THEN s
  ELSE LET a == CHOOSE a \in A : TRUE IN
       Deliver(IF a.reply THEN AliasOff(s, ref) ELSE s, a.own, it)

NameOf(s, n, nm) == LET S == {x \in s.names : x[1] = n /\ x[2] = nm} IN IF S = {} THEN 0 ELSE (CHOOSE x \in S : TRUE)[3]

Know(s, n, p) == IF p # n /\ s.view[n][p].st = "no" THEN [s EXCEPT !.view[n][p] = [st |-> "known", c |-> 0]] ELSE s

---------------------------------------------------------------------------
(* Connections *)

Up(e) == e = "up"

\* Hands a frame to the connection with a node, or keeps it until there is one, or drops it.
Frame(s, n, p, f) ==
  LET v == s.view[n][p] IN
  CASE v.st = "conn" -> IF s.con[v.c].a = n /\ s.con[v.c].tgt = p THEN [s EXCEPT !.con[v.c].qa = Append(@, f)]
                        ELSE [s EXCEPT !.con[v.c].qb = Append(@, f)]
    [] v.st = "pend" -> [s EXCEPT !.pend[n][p] = Append(@, f)]
    [] OTHER -> s

\* An attempt to connect, unless there is a connection or an attempt already.
Trigger(s, n, p) ==
  IF s.view[n][p].st \in {"pend", "conn"} THEN s
  ELSE [s EXCEPT !.con = Append(@, [a |-> n, tgt |-> p, b |-> s.phys[p], ea |-> "hs", eb |-> "hs", qa |-> <<>>, qb |-> <<>>,
                                    brk |-> {}, hf |-> 0, t0 |-> s.now, met |-> FALSE, rj |-> FALSE]),
                 !.view[n][p] = [st |-> "pend", c |-> Len(s.con) + 1]]

\* The connection of n with p is lost: everybody who waits on it is told.
Lost(s, n, p) ==
  LET L == {x \in s.lk : NodeOf(s, x[1]) = n /\ NodeOf(s, x[2]) = p}
      M == {m \in s.mo : NodeOf(s, m.own) = n /\ m.n = p}
      K == {m \in s.nmon : NodeOf(s, m.own) = n /\ m.n = p}
      C == {m \in s.tm : NodeOf(s, m.q) = n /\ NodeOf(s, m.own) = p /\ p # n}
  IN [s EXCEPT !.lk = @ \ L, !.mo = @ \ M, !.nmon = @ \ K, !.tm = @ \ C,
               !.pend[n][p] = <<>>,
               !.fire = @ \cup {[k |-> "l", src |-> <<0, 0>>, q |-> x[1], from |-> x[2], rs |-> "c:noconnection"] : x \in L}
                          \cup {[k |-> "d", src |-> <<0, 0>>, q |-> m.own, ref |-> m.ref, d |-> m.d, rs |-> "c:noconnection"] : m \in M}
                          \cup {[k |-> "nd", src |-> <<0, 0>>, q |-> m.own, ref |-> m.ref, n |-> p] : m \in K}]

\* A node gives up its end of whatever it has with p.
DropEnd(s, n, p) ==
  LET v == s.view[n][p] IN
  CASE v.st = "pend" -> [s EXCEPT !.con[v.c].ea = "down"]
    [] v.st = "conn" -> IF s.con[v.c].a = n /\ s.con[v.c].tgt = p THEN [s EXCEPT !.con[v.c].ea = "linger"] ELSE [s EXCEPT !.con[v.c].eb = "linger"]
    [] OTHER -> s

ToKnown(s, n, p) == [s EXCEPT !.view[n][p] = [st |-> "known", c |-> 0]]

Stalled(s, x, y) == x \in Nodes /\ y \in Nodes /\ s.stl[x][y] # 0
SameCookie(s, c) == s.ck[c.a] = s.ck[c.b]
Reach(s, c) == c.met /\ ~c.rj

\* (when one end of a connection is gone and the other does not hear of it, what was on its way may still arrive)
\* Only now it is known whether there is somebody at the other end.
Meet(s, i) ==
  LET c == s.con[i] IN
  IF c.met THEN {}
  ELSE {[s EXCEPT !.con[i].met = TRUE, !.con[i].rj = c.b = 0 \/ <<c.a, c.b>> \in s.rf \/ s.on[c.b] # "on"]}

Accept(s, i) ==
  LET c == s.con[i] IN
  IF ~(c.eb = "hs" /\ Reach(s, c) /\ s.on[c.b] = "on" /\ "b" \notin c.brk /\ ~Stalled(s, c.a, c.b) /\ SameCookie(s, c)) THEN {}
  ELSE LET v == s.view[c.b][c.a] IN
       IF v.st = "conn" THEN {[s EXCEPT !.con[i].eb = "down"]}
       ELSE LET s1 == IF v.st = "pend" THEN [s EXCEPT !.con[v.c].ea = "down"] ELSE s
            IN {[s1 EXCEPT !.con[i].eb = "up", !.con[i].qb = @ \o s1.pend[c.b][c.a], !.pend[c.b][c.a] = <<>>,
                           !.view[c.b][c.a] = [st |-> "conn", c |-> i]]}

Late(s, c, n) == s.now >= c.t0 + s.hb[n].hs - s.hb[n].slack
TooLate(s, c, n) == s.now > c.t0 + s.hb[n].hs + s.hb[n].slack

\* The node that was asked does not get, or does not like, what it gets.
AcceptFails(s, i) ==
  LET c == s.con[i] IN
  IF c.eb = "hs" /\ c.met /\ (c.rj \/ s.on[c.b] # "on" \/ "b" \in c.brk
                     \/ ((~SameCookie(s, c) \/ c.ea = "down") /\ ~Stalled(s, c.a, c.b) /\ c.brk = {})
                     \/ ((c.brk # {} \/ Stalled(s, c.a, c.b)) /\ Late(s, c, c.b)))
  THEN {[s EXCEPT !.con[i].eb = "down"]} ELSE {}

Complete(s, i) ==
  LET c == s.con[i] IN
  IF c.ea = "hs" /\ s.view[c.a][c.tgt] = [st |-> "pend", c |-> i] /\ s.on[c.a] = "on" /\ Reach(s, c) /\ c.b = c.tgt
     /\ "a" \notin c.brk /\ ~Stalled(s, c.b, c.a) /\ SameCookie(s, c)
  THEN {[s EXCEPT !.con[i].ea = "up", !.con[i].qa = @ \o s.pend[c.a][c.tgt], !.pend[c.a][c.tgt] = <<>>,
                  !.view[c.a][c.tgt] = [st |-> "conn", c |-> i]]}
  ELSE {}

Fail(s, i) ==
  LET c == s.con[i] IN
  IF c.ea = "hs" /\ (s.on[c.a] # "on" \/ (c.met /\ c.rj) \/ "a" \in c.brk
                     \/ ((c.eb = "down" \/ c.b # c.tgt \/ ~SameCookie(s, c)) /\ ~Stalled(s, c.b, c.a) /\ c.brk = {})
                     \/ ((c.brk # {} \/ Stalled(s, c.b, c.a) \/ Stalled(s, c.a, c.b)) /\ Late(s, c, c.a)))
  THEN LET s1 == [s EXCEPT !.con[i].ea = "down"] IN
       {IF s.view[c.a][c.tgt] = [st |-> "pend", c |-> i] THEN Lost(ToKnown(s1, c.a, c.tgt), c.a, c.tgt) ELSE s1}
  ELSE {}

\* Since when the end of n has heard nothing from p (0: it hears).
Deaf(s, c, n, p) == LET x == IF p \in Nodes THEN s.stl[p][n] ELSE 0 IN
                    IF x = 0 THEN c.hf ELSE IF c.hf = 0 THEN x ELSE IF x < c.hf THEN x ELSE c.hf
\* The last that was heard is up to an interval older.
Starved(s, c, n, p) == LET d == Deaf(s, c, n, p) IN
  \/ d # 0 /\ s.now >= d + s.hb[n].to - s.hb[p].int - s.hb[n].slack
  \* what a healthy peer sends may not be enough
  \/ p \in Nodes /\ s.hb[p].int + s.hb[n].slack >= s.hb[n].to /\ s.now >= c.t0 + s.hb[n].to - s.hb[n].slack
MustBeDown(s, c, n, p) == LET d == Deaf(s, c, n, p) IN d # 0 /\ s.now > d + s.hb[n].to + s.hb[n].slack

Gone(e) == e \in {"down", "linger"}

DownA(s, i) ==
  LET c == s.con[i] IN
  IF c.ea = "up" /\ ("a" \in c.brk \/ (Gone(c.eb) /\ c.brk = {} /\ ~Stalled(s, c.b, c.a)) \/ Starved(s, c, c.a, c.tgt))
  THEN LET s1 == [s EXCEPT !.con[i].ea = "down", !.con[i].qb = <<>>] IN
       {IF s.view[c.a][c.tgt] = [st |-> "conn", c |-> i] THEN Lost(ToKnown(s1, c.a, c.tgt), c.a, c.tgt) ELSE s1}
  ELSE {}

DownB(s, i) ==
  LET c == s.con[i] IN
  IF c.eb = "up" /\ ("b" \in c.brk \/ (Gone(c.ea) /\ c.brk = {} /\ ~Stalled(s, c.a, c.b)) \/ Starved(s, c, c.b, c.a))
  THEN LET s1 == [s EXCEPT !.con[i].eb = "down", !.con[i].qa = <<>>] IN
       {IF s.view[c.b][c.a] = [st |-> "conn", c |-> i] THEN Lost(ToKnown(s1, c.b, c.a), c.b, c.a) ELSE s1}
  ELSE {}

\* An end that was given up does not take in anything any more, and what it still took in is undone.
Undo(s, n, p) == IF s.view[n][p].st \in {"no", "known"} THEN Lost(s, n, p) ELSE s
LingerEnd(s, i) ==
  LET c == s.con[i] IN
  (IF c.ea = "linger" THEN {Undo([s EXCEPT !.con[i].ea = "down", !.con[i].qb = <<>>], c.a, c.tgt)} ELSE {})
  \cup (IF c.eb = "linger" THEN {Undo([s EXCEPT !.con[i].eb = "down", !.con[i].qa = <<>>], c.b, c.a)} ELSE {})

---------------------------------------------------------------------------
(* Frames that arrive at node n from node p *)

SendTo(s, n, d, it) ==
  CASE d.k = "p" -> IF NodeOf(s, d.q) = n THEN Deliver(s, d.q, it) ELSE s
    [] d.k = "n" -> LET q == NameOf(s, n, d.nm) IN IF q = 0 THEN s ELSE Deliver(s, q, it)
    [] d.k = "a" -> AliasSend(s, n, d.ref, it)

MonAdd(s, ref, own, q, d) == [s EXCEPT !.tm = @ \cup {[ref |-> ref, own |-> own, q |-> q, d |-> d]}]

Arrive(s0, n, p, f, src) ==
  LET s == IF f.k \in {"mon", "demon", "upd", "link", "unlink", "ld", "exit"} THEN Know(s0, n, p) ELSE s0 IN
  CASE f.k = "send" -> SendTo(s, n, f.d, f.it)
    [] f.k = "exit" -> ExitSig(s, f.q, f.from, f.rs)
    [] f.k = "mon" ->
         LET q == IF f.d.k = "p" THEN f.d.q ELSE NameOf(s, n, f.d.nm) IN
         IF q # 0 /\ Exists(s, q)
         THEN LET s1 == MonAdd(s, f.ref, f.own, q, [k |-> "r"])
              IN IF f.d.k = "n" THEN Frame(s1, n, p, [k |-> "upd", ref |-> f.ref, own |-> f.own, q |-> q]) ELSE s1
         ELSE Frame(s, n, p, [k |-> "md", refs |-> {f.ref}, rs |-> "c:noproc"])
    [] f.k = "demon" -> [s EXCEPT !.tm = {m \in @ : ~(m.ref = f.ref /\ f.q \in {0, m.q})}]
    [] f.k = "md" -> [s EXCEPT !.fire = @ \cup {[k |-> "md", src |-> src, ref |-> r, rs |-> f.rs] : r \in f.refs}]
    [] f.k = "upd" -> Deliver(s, f.own, [k |-> "upd", ref |-> f.ref, q |-> f.q])
    [] f.k = "link" -> IF Exists(s, f.q) THEN [s EXCEPT !.lk = @ \cup {<<f.q, f.from>>}]
                       ELSE Frame(s, n, p, [k |-> "ld", qs |-> {f.from}, from |-> f.q, rs |-> "c:noproc"])
    [] f.k = "unlink" -> [s EXCEPT !.lk = @ \ {<<f.q, f.from>>}]
    [] f.k = "ld" -> [s EXCEPT !.fire = @ \cup {[k |-> "ld", src |-> src, q |-> q, from |-> f.from, rs |-> f.rs] : q \in f.qs}]

Busy(s, src) == \E x \in s.fire : x.src = src

ArriveA(s, i) ==      \* at the node that asked
  LET c == s.con[i] src == <<i, c.a>> IN
  IF c.qb # <<>> /\ c.ea \in {"up", "linger"} /\ ~Stalled(s, c.b, c.a) /\ ~Busy(s, src)
  THEN {Arrive([s EXCEPT !.con[i].qb = Tail(@)], c.a, c.tgt, Head(c.qb), src)} ELSE {}

ArriveB(s, i) ==
  LET c == s.con[i] src == <<i, c.b>> IN
  IF c.qa # <<>> /\ c.eb \in {"up", "linger"} /\ ~Stalled(s, c.a, c.b) /\ ~Busy(s, src)
  THEN {Arrive([s EXCEPT !.con[i].qa = Tail(@)], c.b, c.a, Head(c.qa), src)} ELSE {}

---------------------------------------------------------------------------
(* Notifications within a node *)

Fire(s, x) ==
  LET s1 == [s EXCEPT !.fire = @ \ {x}] IN
  CASE x.k = "l" -> LinkSig(s1, x.q, x.from, x.rs)
    [] x.k = "ld" -> IF <<x.q, x.from>> \in s.lk THEN LinkSig([s1 EXCEPT !.lk = @ \ {<<x.q, x.from>>}], x.q, x.from, x.rs) ELSE s1
    [] x.k = "d" -> Deliver(AliasOff(s1, x.ref), x.q, [k |-> "d", ref |-> x.ref, d |-> x.d, rs |-> x.rs])
    [] x.k = "nd" -> Deliver(s1, x.q, [k |-> "nd", ref |-> x.ref, n |-> x.n])
    [] x.k = "md" ->
         LET M == {m \in s.mo : m.ref = x.ref} IN
         IF M = {} THEN AliasOff(s1, x.ref)
         ELSE LET m == CHOOSE m \in M : TRUE IN
              Deliver(AliasOff([s1 EXCEPT !.mo = @ \ M], x.ref), m.own, [k |-> "d", ref |-> x.ref, d |-> m.d, rs |-> x.rs])

---------------------------------------------------------------------------
(* The end of a process, in the order its node goes about it *)

\* A monitor is given up: at the node of its target (t) and, if that is another one, here.
MonDestroy(s, n, ref, t) ==
  IF NodeOf(s, t) = n THEN [s EXCEPT !.tm = {m \in @ : ~(m.ref = ref /\ m.q = t)}]
  ELSE Frame([s EXCEPT !.mo = {m \in @ : m.ref # ref}], n, NodeOf(s, t), [k |-> "demon", ref |-> ref, q |-> t])

\* (by a name, and which process it is has not been heard of)
NamedDestroy(s, n, ref) ==
  LET M == {m \in s.mo : m.ref = ref} IN
  IF M = {} THEN s ELSE LET p == (CHOOSE m \in M : TRUE).n IN Frame(Know([s EXCEPT !.mo = @ \ M], n, p), n, p, [k |-> "demon", ref |-> ref, q |-> 0])

PmDestroy(s, n, m) ==
  LET s1 == [s EXCEPT !.pm = @ \ {m}] IN
  AliasOff(IF m.t = -1 THEN [s1 EXCEPT !.nmon = {x \in @ : x.ref # m.ref}]
           ELSE IF m.t = 0 THEN NamedDestroy(s1, n, m.ref) ELSE MonDestroy(s1, n, m.ref, m.t), m.ref)

RECURSIVE DestroyAll(_, _, _)
DestroyAll(s, n, M) ==
  IF M = {} THEN s ELSE LET m == CHOOSE m \in M : \A x \in M : m.ref <= x.ref IN DestroyAll(PmDestroy(s, n, m), n, M \ {m})

RECURSIVE FrameAll(_, _, _, _)
FrameAll(s, n, P, F) == IF P = {} THEN s ELSE LET p == CHOOSE p \in P : TRUE IN FrameAll(Frame(s, n, p, F[p]), n, P \ {p}, F)

DieStep(s, p) ==
  LET n == NodeOf(s, p) rs == CHOOSE r \in s.proc[p].rs : TRUE src == <<0, 0>> IN    \* (there is only one by then)
  CASE s.proc[p].st = "g1" ->
         LET L == {x \in s.lk : x[1] = p /\ NodeOf(s, x[2]) = n} IN
         {[s EXCEPT !.proc[p].st = "g2",
                    !.lk = {x \in @ : ~(NodeOf(s, x[1]) = n /\ NodeOf(s, x[2]) = n /\ p \in {x[1], x[2]})},
                    !.fire = @ \cup {[k |-> "l", src |-> src, q |-> x[2], from |-> p, rs |-> rs] : x \in L}]}
    [] s.proc[p].st = "g2" ->
         LET L == {x \in s.lk : x[1] = p} IN
         {FrameAll([s EXCEPT !.proc[p].st = "g3", !.lk = @ \ L], n, {NodeOf(s, x[2]) : x \in L},
                   [t \in {NodeOf(s, x[2]) : x \in L} |-> [k |-> "ld", qs |-> {x[2] : x \in {y \in L : NodeOf(s, y[2]) = t}}, from |-> p, rs |-> rs]])}
    [] s.proc[p].st = "g3" ->
         LET M == {m \in s.tm : m.q = p /\ NodeOf(s, m.own) = n} IN
         {[s EXCEPT !.proc[p].st = "g4", !.tm = @ \ M,
                    !.fire = @ \cup {[k |-> "d", src |-> src, q |-> m.own, ref |-> m.ref, d |-> m.d, rs |-> rs] : m \in M}]}
    [] s.proc[p].st = "g4" ->
         LET M == {m \in s.tm : m.q = p} IN
         {FrameAll([s EXCEPT !.proc[p].st = "g5", !.tm = @ \ M], n, {NodeOf(s, m.own) : m \in M},
                   [t \in {NodeOf(s, m.own) : m \in M} |-> [k |-> "md", refs |-> {m.ref : m \in {x \in M : NodeOf(s, x.own) = t}}, rs |-> rs]])}
    [] s.proc[p].st = "g5" ->
         {LET s1 == DestroyAll(s, n, {m \in s.pm : m.own = p}) IN
          [s1 EXCEPT !.proc[p].st = "dead", !.als = {a \in @ : a.own # p}]}
    [] OTHER -> {}

---------------------------------------------------------------------------
(* Operations of a process *)

\* A process names something of another node: its node has to be known from then on.
KnowN(s, n, t) == IF s.on[n] = "on" /\ t # 0 /\ t # n THEN Know(s, n, t) ELSE s
RECURSIVE KnowAll(_, _, _)
KnowAll(s, n, T) == IF T = {} THEN s ELSE LET t == CHOOSE t \in T : TRUE IN KnowAll(KnowN(s, n, t), n, T \ {t})

DestNode(s, d) == IF d.k = "p" THEN NodeOf(s, d.q) ELSE d.n

Mentions(s, op) ==
  CASE op.k = "send" -> {DestNode(s, op.ds[i]) : i \in {j \in DOMAIN op.ds : op.ds[j].k # "n"}} \cup {op.kn[i] : i \in DOMAIN op.kn}
    [] op.k \in {"link", "unlink", "exit"} -> {NodeOf(s, op.q)}
    [] op.k \in {"mon", "gcall", "cast"} -> IF op.d.k = "n" THEN {} ELSE {DestNode(s, op.d)}
    [] OTHER -> {}

\* What a name, or anything else, of another node is sent.
SendOne(s, n, d, it) ==
  LET t == DestNode(s, d) IN
  IF t = n THEN SendTo(s, n, d, it)
  ELSE IF d.k = "n" THEN Frame(Know(s, n, t), n, t, [k |-> "send", d |-> d, it |-> it])
  ELSE IF s.on[n] # "on" THEN s
  ELSE Frame(s, n, t, [k |-> "send", d |-> d, it |-> it])

PmAdd(s, ref, p, t) == [s EXCEPT !.pm = @ \cup {[ref |-> ref, own |-> p, t |-> t]}]
MoAdd(s, ref, p, n, d) == [s EXCEPT !.mo = @ \cup {[ref |-> ref, own |-> p, n |-> n, d |-> d]}]
DownNow(s, p, ref, d, rs) == Deliver(AliasOff(s, ref), p, [k |-> "d", ref |-> ref, d |-> d, rs |-> rs])

\* A monitor on another node is noted first, and then asked for.
MonFar(s, p, d) == DestNode(s, d) # NodeOf(s, p) /\ (d.k = "n" \/ s.on[NodeOf(s, p)] = "on")
Mon1(s, p, ref, d) ==
  LET n == NodeOf(s, p) t == DestNode(s, d) IN
  IF t = n
  THEN LET q == IF d.k = "p" THEN d.q ELSE NameOf(s, n, d.nm) IN
       IF q # 0 /\ Exists(s, q) THEN MonAdd(PmAdd(s, ref, p, q), ref, p, q, d)
       ELSE DownNow(PmAdd(s, ref, p, q), p, ref, d, "c:noproc")
  ELSE IF ~MonFar(s, p, d) THEN DownNow(PmAdd(s, ref, p, d.q), p, ref, d, "c:noconnection")
  ELSE MoAdd(PmAdd(s, ref, p, IF d.k = "p" THEN d.q ELSE 0), ref, p, t, d)
Mon2(s, p, ref, d) ==
  LET n == NodeOf(s, p) t == DestNode(s, d) IN
  IF MonFar(s, p, d) THEN Frame(Trigger(s, n, t), n, t, [k |-> "mon", ref |-> ref, own |-> p, d |-> d]) ELSE s

Demonitor(s, p, ref) ==
  LET M == {m \in s.pm : m.ref = ref /\ m.own = p} IN
  IF M = {} THEN s ELSE PmDestroy(s, NodeOf(s, p), CHOOSE m \in M : TRUE)

\* The operation of p takes place: next states, how far it is then, and results.
X(s, ph, r) == [s |-> s, ph |-> ph, r |-> r]
Done(s) == {X(s, 9, R0)}

\* The destinations of a message that may be served next: those of the node itself, the first one last, then, in any order, the others.
NextDests(s, n, ds) ==
  LET L == {i \in DOMAIN ds : DestNode(s, ds[i]) = n}
      first == CHOOSE i \in L : \A j \in L : i <= j
      rest == L \ {first}
  IN IF L # {} THEN (IF rest # {} THEN {CHOOSE i \in rest : \A j \in rest : i <= j} ELSE {first})
     ELSE {i \in DOMAIN ds : \A j \in DOMAIN ds : j < i => DestNode(s, ds[j]) # DestNode(s, ds[i])}

Do(s, p, op, ph) ==
  LET n == NodeOf(s, p) IN
  CASE op.k = "send" ->
         IF op.ds = <<>> THEN Done(s)
         ELSE { X([SendOne(s, n, op.ds[i], [k |-> "u", m |-> op.m, kn |-> op.kn]) EXCEPT !.proc[p].op.ds = RemoveAt(@, i)],
                  IF Len(op.ds) = 1 THEN 9 ELSE 1, R0) : i \in NextDests(s, n, op.ds) }
    [] op.k = "link" ->
         IF op.q = p THEN Done(s)
         ELSE IF NodeOf(s, op.q) = n
         THEN Done(IF Exists(s, op.q) THEN [s EXCEPT !.lk = @ \cup {<<p, op.q>>, <<op.q, p>>}] ELSE LinkSig(s, p, op.q, "c:noproc"))
         ELSE IF ph = 0 /\ s.on[n] # "on" THEN Done(LinkSig(s, p, op.q, "c:noconnection"))
         ELSE IF ph = 0 THEN {X([s EXCEPT !.lk = @ \cup {<<p, op.q>>}], 1, R0)}
         ELSE Done(Frame(Trigger(s, n, NodeOf(s, op.q)), n, NodeOf(s, op.q), [k |-> "link", q |-> op.q, from |-> p]))
    [] op.k = "unlink" ->
         Done(IF NodeOf(s, op.q) = n THEN [s EXCEPT !.lk = @ \ {<<p, op.q>>, <<op.q, p>>}]
              ELSE Frame([s EXCEPT !.lk = @ \ {<<p, op.q>>}], n, NodeOf(s, op.q), [k |-> "unlink", q |-> op.q, from |-> p]))
    [] op.k = "exit" ->
         Done(IF NodeOf(s, op.q) = n THEN ExitSig(s, op.q, p, op.rs)
              ELSE IF s.on[n] # "on" THEN s
              ELSE Frame(s, n, NodeOf(s, op.q), [k |-> "exit", q |-> op.q, from |-> p, rs |-> op.rs]))
    [] op.k = "mon" -> IF ph = 0 THEN {X(Mon1(s, p, op.ref, op.d), IF MonFar(s, p, op.d) THEN 1 ELSE 9, R0)} ELSE Done(Mon2(s, p, op.ref, op.d))
    [] op.k \in {"demon", "nodedemon"} -> Done(Demonitor(s, p, op.ref))
    [] op.k = "alias" -> Done([s EXCEPT !.als = @ \cup {[ref |-> op.ref, own |-> p, reply |-> op.reply]}])
    [] op.k = "unalias" ->
         {X([s EXCEPT !.als = {a \in @ : ~(a.ref = op.ref /\ a.own = p)}], 9,
            Rm(IF \E a \in s.als : a.ref = op.ref /\ a.own = p THEN 1 ELSE 0))}
    [] op.k = "nodemon" ->
         IF ph = 0 THEN {X([PmAdd(s, op.ref, p, -1) EXCEPT !.nmon = @ \cup {[ref |-> op.ref, own |-> p, n |-> op.n]}], 1, R0)}
         ELSE Done(Trigger(s, n, op.n))
    [] op.k = "connect" -> Done(Trigger(s, n, op.n))
    [] op.k = "disconnect" -> Done(IF s.view[n][op.n].st = "no" THEN s ELSE Lost(ToKnown(DropEnd(s, n, op.n), n, op.n), n, op.n))
    [] op.k = "forget" -> Done(IF s.view[n][op.n].st = "no" THEN s
                               ELSE Lost([DropEnd(s, n, op.n) EXCEPT !.view[n][op.n] = NoView], n, op.n))
    [] op.k = "trap" -> Done([s EXCEPT !.proc[p].trap = op.v])
    [] op.k = "reg" -> IF NameOf(s, n, op.nm) = p THEN {X(s, 9, Rm(1))}
                       ELSE IF NameOf(s, n, op.nm) # 0 \/ s.proc[p].nm # "" THEN {X(s, 9, Rm(0))}
                       ELSE {X([s EXCEPT !.names = @ \cup {<<n, op.nm, p>>}, !.proc[p].nm = op.nm], 9, Rm(1))}
                            \cup (IF s.proc[p].st = "dying" THEN {X(s, 9, Rm(0))} ELSE {})
    [] op.k = "ret" -> Done(Fatal(s, p, "normal"))
    [] op.k = "panic" -> Done(Fatal(s, p, "c:to order"))
    [] op.k = "cast" -> Done(SendOne(s, n, op.d, [k |-> "cast", m |-> op.m, late |-> op.late]))
    [] op.k = "gcall" ->
         CASE ph = 0 -> {X(Mon1([s EXCEPT !.als = @ \cup {[ref |-> op.ref, own |-> p, reply |-> TRUE]}], p, op.ref, op.d),
                           IF MonFar(s, p, op.d) THEN 1 ELSE 2, R0)}
           [] ph = 1 -> {X(Mon2(s, p, op.ref, op.d), 2, R0)}
           [] OTHER -> Done(SendOne(s, n, op.d, [k |-> "call", m |-> op.m, ref |-> op.ref, own |-> p, act |-> op.act]))
    [] op.k = "reply" -> Done(SendOne(s, n, [k |-> "a", ref |-> op.ref, n |-> NodeOf(s, op.own)], [k |-> "rep", ref |-> op.ref, m |-> op.m]))

RECURSIVE StopAll(_, _, _)
StopAll(s, n, P) ==
  IF P = {} THEN s
  ELSE LET p == CHOOSE p \in P : TRUE IN
       StopAll(Lost([DropEnd(s, n, p) EXCEPT !.view[n][p] = NoView], n, p), n, P \ {p})
StopNode(s, n) == StopAll([s EXCEPT !.on[n] = "off"], n, Tgts \ {n})

\* A node is killed: it and all its processes are no more.
KillNode(s, n) ==
  [s EXCEPT !.on[n] = "dead",
            !.proc = [p \in Pids |-> IF s.proc[p].n = n THEN [s.proc[p] EXCEPT !.st = "dead", !.mb = <<>>, !.op = NoOp, !.ph = 0] ELSE s.proc[p]],
            !.con = [i \in DOMAIN s.con |->
                       LET c == s.con[i] IN
                       [c EXCEPT !.ea = IF c.a = n THEN "down" ELSE @, !.eb = IF c.b = n THEN "down" ELSE @]],
            !.lk = {x \in @ : NodeOf(s, x[1]) # n}, !.mo = {m \in @ : NodeOf(s, m.own) # n}, !.pm = {m \in @ : NodeOf(s, m.own) # n},
            !.tm = {m \in @ : NodeOf(s, m.q) # n}, !.nmon = {m \in @ : NodeOf(s, m.own) # n}, !.als = {a \in @ : NodeOf(s, a.own) # n},
            !.names = {x \in @ : x[1] # n},
            !.fire = {x \in @ : x.k \in {"md"} \/ NodeOf(s, x.q) # n}]

Act(s) == {p \in Pids : s.proc[p].st \notin {"none", "dead"}}

\* Something in a mailbox the process does not get to see: news about a monitor, or one that was given up.
Stale(s, p, it) == \/ it.k = "upd"
                   \/ it.k \in {"d", "nd"} /\ ~\E m \in s.pm : m.ref = it.ref /\ m.own = p
Eat(s, p) ==
  LET I == {i \in DOMAIN s.proc[p].mb : Stale(s, p, s.proc[p].mb[i])} IN
  IF I = {} \/ s.proc[p].st \notin {"live", "dying"} THEN {}
  ELSE LET i == CHOOSE i \in I : \A j \in I : i <= j
           it == s.proc[p].mb[i]
           s1 == [s EXCEPT !.proc[p].mb = RemoveAt(@, i)]
       IN {IF it.k = "upd" THEN [s1 EXCEPT !.pm = {IF m.ref = it.ref /\ m.own = p THEN [m EXCEPT !.t = it.q] ELSE m : m \in @}] ELSE s1}

Exec(s, p) ==
  LET op == s.proc[p].op ph == s.proc[p].ph IN
  IF op.k = "no" \/ ph = 9 \/ s.proc[p].st \notin {"live", "dying"} THEN {}
  ELSE IF op.k = "stop" THEN {[StopNode(s, p) EXCEPT !.proc[p].ph = 9, !.proc[p].res = R0]}
  ELSE LET s1 == IF ph = 0 THEN KnowAll(s, NodeOf(s, p), Mentions(s, op)) ELSE s IN
       { IF op.k = "reply" THEN [x.s EXCEPT !.proc[p].op = NoOp, !.proc[p].ph = 0]
         ELSE [x.s EXCEPT !.proc[p].ph = x.ph, !.proc[p].res = x.r] : x \in Do(s1, p, op, ph) }

Silent(s) ==
  UNION { Meet(s, i) \cup Accept(s, i) \cup AcceptFails(s, i) \cup Complete(s, i) \cup Fail(s, i) \cup DownA(s, i) \cup DownB(s, i)
          \cup LingerEnd(s, i) \cup ArriveA(s, i) \cup ArriveB(s, i) : i \in DOMAIN s.con }
  \cup { Fire(s, x) : x \in s.fire }
  \cup UNION { DieStep(s, p) \cup Eat(s, p) \cup Exec(s, p) : p \in Act(s) }

\* A server takes its next request.
Serve(s, p, k, m) ==
  LET mb == s.proc[p].mb n == NodeOf(s, p) IN
  IF mb = <<>> \/ s.proc[p].op.k # "no" THEN {}
  ELSE LET it == Head(mb) s1 == [s EXCEPT !.proc[p].mb = Tail(@)] IN
       IF it.k # k \/ it.m # m THEN {}
       ELSE IF k = "cast"
       THEN LET H == {h \in s.held : h[1] = n /\ h[2] = it.late} IN
            {IF H = {} THEN s1 ELSE LET h == CHOOSE h \in H : TRUE IN
               [s1 EXCEPT !.proc[p].op = [k |-> "reply", ref |-> h[3], own |-> h[4], m |-> h[2] + 1000], !.proc[p].ph = 0]}
       ELSE LET s2 == [s1 EXCEPT !.held = @ \cup {<<n, it.m, it.ref, it.own>>}] IN
            {CASE it.act = "reply" -> [s2 EXCEPT !.proc[p].op = [k |-> "reply", ref |-> it.ref, own |-> it.own, m |-> it.m + 1000], !.proc[p].ph = 0]
               [] it.act = "hold" -> s2
               [] it.act = "stop" -> Fatal(s2, p, "c:halt")
               [] OTHER -> Fatal(s2, p, "c:to order")}

\* A process takes its next message.
Take(s, p, it) ==
  LET mb == s.proc[p].mb IN
  IF mb = <<>> \/ s.proc[p].op.k # "no" THEN {}
  ELSE LET h == Head(mb) s1 == [s EXCEPT !.proc[p].mb = Tail(@)] IN
       IF h.k # it.k \/ Stale(s, p, h) THEN {}
       ELSE CASE h.k = "u" -> IF h.m = it.m /\ it.ok THEN {KnowAll(s1, NodeOf(s, p), {h.kn[i] : i \in DOMAIN h.kn})} ELSE {}
              [] h.k = "x" -> IF h.rs = it.rs /\ it.from \in {0, h.from} THEN {s1} ELSE {}
              [] h.k = "d" -> IF h.rs = it.rs /\ h.ref = it.ref /\ it.d \in {h.d} \cup (IF h.d.k = "p" THEN {[k |-> "p", q |-> 0]} ELSE {}) THEN {[s1 EXCEPT !.pm = {m \in @ : ~(m.ref = h.ref /\ m.own = p)}]} ELSE {}
              [] h.k = "nd" -> IF h.ref = it.ref /\ h.n = it.n THEN {[s1 EXCEPT !.pm = {m \in @ : ~(m.ref = h.ref /\ m.own = p)}]} ELSE {}
              [] OTHER -> {}

\* What a call may return with.
News(s, p, ref) == {i \in DOMAIN s.proc[p].mb : s.proc[p].mb[i].k \in {"rep", "d"} /\ s.proc[p].mb[i].ref = ref}
CallEnd(s, p, r) ==
  LET op == s.proc[p].op
      I == News(s, p, op.ref)
      over(x) == [x EXCEPT !.proc[p].op = NoOp, !.proc[p].ph = 0, !.als = {a \in @ : a.ref # op.ref},
                           !.proc[p].mb = SelectSeq(@, LAMBDA it : ~(it.k \in {"rep", "d"} /\ it.ref = op.ref))]
  IN CASE r.k = "ok" -> IF \E i \in I : s.proc[p].mb[i].k = "rep" /\ s.proc[p].mb[i].m = r.m THEN {over(Demonitor(s, p, op.ref))} ELSE {}
       [] r.k = "down" -> IF \E i \in I : s.proc[p].mb[i].k = "d" /\ s.proc[p].mb[i].rs = r.rs /\ \A j \in I : i <= j
                          THEN {over([s EXCEPT !.pm = {m \in @ : ~(m.ref = op.ref /\ m.own = p)}])} ELSE {}
       [] r.k = "timeout" -> IF s.now >= s.proc[p].at + op.to THEN {over(Demonitor(s, p, op.ref))} ELSE {}
       [] OTHER -> {}

Overdue(s) ==
  \/ \E i \in DOMAIN s.con :
       LET c == s.con[i] IN
       \/ c.ea = "hs" /\ TooLate(s, c, c.a)
       \/ c.ea = "up" /\ MustBeDown(s, c, c.a, c.tgt)
       \/ c.eb = "up" /\ MustBeDown(s, c, c.b, c.a)
  \/ \E p \in Pids : s.proc[p].op.k = "gcall" /\ s.now > s.proc[p].at + s.proc[p].op.to + s.hb[NodeOf(s, p)].slack
  \/ \E x \in s.raw : s.on[x.n] # "dead" /\ s.now > x.t + s.hb[x.n].hs + s.hb[x.n].slack

\* Nothing is left to be done, except what waits for time to pass.
Idle(s) ==
  /\ s.fire = {}
  /\ \A i \in DOMAIN s.con :
       /\ s.con[i].met /\ (s.con[i].brk # {} \/ (Accept(s, i) = {} /\ Complete(s, i) = {})) /\ LingerEnd(s, i) = {} /\ ArriveA(s, i) = {} /\ ArriveB(s, i) = {}
       /\ LET c == s.con[i] z == [s EXCEPT !.now = 0] IN
          \* Without the time.
          AcceptFails(z, i) = {} /\ Fail(z, i) = {} /\ DownA(z, i) = {} /\ DownB(z, i) = {}
  /\ \A p \in Act(s) : /\ s.proc[p].st = "live" /\ Eat(s, p) = {}
                          /\ IF s.proc[p].op.k = "gcall" THEN s.proc[p].ph = 9 /\ News(s, p, s.proc[p].op.ref) = {}
                             ELSE s.proc[p].op.k = "no" /\ s.proc[p].mb = <<>>
=============================================================================
