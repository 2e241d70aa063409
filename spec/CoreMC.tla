------------------------------- MODULE CoreMC -------------------------------
(* Exhaustive check of the design of the process runtime: every interleaving of at most MaxOps operations of the kinds
   Kinds by MaxP processes with the fine-grained clean-up of dying processes and the firing of timers.
   Mailboxes are only read by the kinds "recv"/"remove", so that they otherwise hold the whole history. *)
EXTENDS Core

CONSTANTS Kinds, MaxOps, Reasons, Nms, Trapping

VARIABLES s, n, h
vars == <<s, n, h>>

\* h.mon: every monitor ever made; h.cxl: cancelled timers; h.ex: explicit exits <<from, to>>; h.sent: sends [m, dests, tm]
InitH == [mon |-> {}, cxl |-> {}, ex |-> {}, sent |-> {}, lk |-> {}, unlk |-> {}]

RECURSIVE Start(_, _)
Start(x, k) == IF k = 0 THEN x
               ELSE Start([NewProc(x, k) EXCEPT !.proc[k].trap = (k \in Trapping)], k - 1)
Init == s = Start(InitS, 2) /\ n = 0 /\ h = InitH

All == [ty |-> "S", u |-> -1, x |-> TRUE, d |-> TRUE, strict |-> FALSE]
Opt(k, r) == IF k \in Kinds THEN r ELSE {}
Used(k) == \E e \in h.sent : e.m = k

Dests == {<<"pid", q, "">> : q \in 1..2} \cup {<<"name", 0, x>> : x \in Nms} \cup {<<"alias", a.ref, "">> : a \in s.als}

Known == {q \in Pids : s.proc[q].st # "none"}

Ops(p) ==
     Opt("spawn", {[o |-> "spawn", c |-> c, kind |-> kd, ref |-> n + 1] : c \in {c \in Pids : s.proc[c].st = "none" /\ \A e \in Pids : s.proc[e].st = "none" => c <= e}, kd \in {"link", "mon"}})
  \cup Opt("send", {[o |-> "send", dests |-> <<d>>, ty |-> "S", m |-> n + 1] : d \in Dests})
  \cup Opt("send2", {[o |-> "send", dests |-> <<d, <<"pid", 2, "">>>>, ty |-> "S", m |-> n + 1] : d \in Dests})
  \cup Opt("exit", {[o |-> "exit", q |-> q, rs |-> rs] : q \in Known, rs \in Reasons})
  \cup Opt("link", {[o |-> "link", q |-> q] : q \in Known \ {p}})
  \cup Opt("unlink", {[o |-> "unlink", q |-> q] : q \in Known \ {p}})
  \cup Opt("monitor", {[o |-> "monitor", ref |-> n + 1, dest |-> d, alias |-> al] : d \in {d \in Dests : d[1] # "alias" /\ d # <<"pid", p, "">>}, al \in {"none", "reply"}})
  \cup Opt("demonitor", {[o |-> "demonitor", ref |-> m.ref] : m \in {m \in h.mon : m.owner = p}})
  \cup Opt("alias", {[o |-> "alias", ref |-> n + 1, reply |-> b] : b \in BOOLEAN})
  \cup Opt("unalias", {[o |-> "unalias", ref |-> a.ref] : a \in s.als})
  \cup Opt("register", {[o |-> "register", q |-> q, n |-> x] : q \in Known, x \in Nms})
  \cup Opt("unregister", {[o |-> "unregister", n |-> x[1]] : x \in s.names})
  \cup Opt("ret", {[o |-> "ret"]})
  \cup Opt("panic", {[o |-> "panic", rs |-> "c:p"]})
  \cup Opt("sendafter", {[o |-> "sendafter", tm |-> n + 1, ms |-> ms, dests |-> <<<<"pid", q, "">>>>, ty |-> "S", m |-> n + 1] : ms \in {0, 1}, q \in 1..2})
  \cup Opt("cancel", {[o |-> "cancel", tm |-> e.tm] : e \in {e \in h.sent : e.tm # 0}})
  \cup Opt("recv", {[o |-> "recv", ty |-> "S", u |-> u, x |-> TRUE, d |-> TRUE, strict |-> st] : u \in {-1, -3}, st \in BOOLEAN})
  \cup Opt("remove", {[o |-> "remove", ty |-> "S", u |-> -4, x |-> FALSE, d |-> FALSE, strict |-> FALSE]})

Note(p, op, r) ==
  CASE op.o = "monitor" -> [h EXCEPT !.mon = @ \cup {[ref |-> op.ref, owner |-> p, dest |-> op.dest, on |-> TRUE]}]
    [] op.o = "spawn" /\ op.kind = "mon" -> [h EXCEPT !.mon = @ \cup {[ref |-> op.ref, owner |-> p, dest |-> <<"pid", op.c, "">>, on |-> TRUE]}]
    [] op.o = "spawn" /\ op.kind = "link" -> [h EXCEPT !.lk = @ \cup {{p, op.c}}, !.unlk = @ \ {{p, op.c}}]
    [] op.o = "demonitor" -> [h EXCEPT !.mon = {IF m.ref = op.ref THEN [m EXCEPT !.on = FALSE] ELSE m : m \in @}]
    [] op.o = "send" -> [h EXCEPT !.sent = @ \cup {[m |-> op.m, dests |-> op.dests, tm |-> 0, due |-> 0]}]
    [] op.o = "sendafter" -> [h EXCEPT !.sent = @ \cup {[m |-> op.m, dests |-> op.dests, tm |-> op.tm, due |-> s.now + op.ms]}]
    [] op.o = "cancel" -> [h EXCEPT !.cxl = @ \cup (IF \E t \in s.tms : t.tm = op.tm THEN {op.tm} ELSE {})]
    [] op.o = "exit" -> [h EXCEPT !.ex = @ \cup {<<p, op.q>>}]
    [] op.o = "link" -> [h EXCEPT !.lk = @ \cup {{p, op.q}}, !.unlk = @ \ {{p, op.q}}]
    [] op.o = "unlink" -> [h EXCEPT !.unlk = @ \cup {{p, op.q}}]
    [] OTHER -> h

OpStep ==
  /\ n < MaxOps
  /\ \E p \in Pids : MayRun(s, p) /\ \E op \in Ops(p) : \E x \in Outcomes(s, p, op) :
       s' = x.s /\ h' = Note(p, op, x.r)
  /\ n' = n + 1

Silent == /\ \/ \E q \in Pids : s' \in DieSteps(s, q)
             \/ s' \in FireSteps(s)
             \/ "sendafter" \in Kinds /\ s.now < 1 /\ s' = [s EXCEPT !.now = 1]
          /\ UNCHANGED <<n, h>>
Next == OpStep \/ Silent
Spec == Init /\ [][Next]_vars

Count(q, P(_)) == Cardinality({i \in DOMAIN s.proc[q].mb : P(s.proc[q].mb[i])})
Reads == {"recv", "remove"} \cap Kinds # {}

\* C06: names and processes map one to one, only to processes that still have to release them.
Names == /\ \A x, y \in s.names : (x[1] = y[1]) <=> (x[2] = y[2])
         /\ \A x \in s.names : s.proc[x[2]].st \in {"live", "dying", "gone"} /\ s.proc[x[2]].nm = x[1]
         /\ \A q \in Pids : s.proc[q].nm # "" => <<s.proc[q].nm, q>> \in s.names

\* C07: who is told finds it true.
Announce == \A p \in Pids : \A i \in DOMAIN s.proc[p].mb :
   LET it == s.proc[p].mb[i] IN
   /\ (it.k = "d" /\ it.rs # "c:noproc" /\ it.d[1] = "pid") => Ended(s, it.d[2]) /\ \A x \in s.names : x[2] # it.d[2]
   /\ (it.k = "x" /\ <<it.from, p>> \notin h.ex /\ it.rs # "c:noproc") => Ended(s, it.from) /\ \A x \in s.names : x[2] # it.from

\* C03: one final reason, the same for everybody.
OneReason ==
  /\ \A q \in Pids : Ended(s, q) => Cardinality(s.proc[q].rs) = 1
  /\ \A p \in Pids : \A i \in DOMAIN s.proc[p].mb :
       LET it == s.proc[p].mb[i] IN
       (it.k = "d" /\ it.d[1] = "pid" /\ it.rs # "c:noproc") => s.proc[it.d[2]].rs = {it.rs}

\* C05: never twice, never after removal.
MonOnce == \A m \in h.mon :
   LET c == Count(m.owner, LAMBDA it : it.k = "d" /\ it.ref = m.ref) IN
   /\ c <= 1
   /\ ~m.on => c = 0
   /\ (\E x \in s.mons : x.ref = m.ref) => c = 0
MonFired == (Quiet(s) /\ ~Reads) => \A m \in h.mon : (m.on /\ Live(s, m.owner)) =>
   \/ \E x \in s.mons : x.ref = m.ref /\ Live(s, x.target)
   \/ Count(m.owner, LAMBDA it : it.k = "d" /\ it.ref = m.ref /\ it.d = m.dest) = 1

\* C04: a link fires once, and nothing is left of it.
LinkOnce == \A p, q \in Pids : (p # q /\ <<q, p>> \notin h.ex) =>
   /\ Count(p, LAMBDA it : it.k = "x" /\ it.from = q /\ it.rs # "c:noproc") <= 1
   /\ ({p, q} \notin h.lk) => Count(p, LAMBDA it : it.k = "x" /\ it.from = q) = 0
LinkFired == (Quiet(s) /\ ~Reads /\ h.ex = {} /\ Kinds \cap {"unlink"} = {}) =>
   \A p, q \in Pids : (p # q /\ {p, q} \in h.lk /\ Live(s, p) /\ ~Live(s, q)) =>
        IF s.proc[p].trap THEN Count(p, LAMBDA it : it.k = "x" /\ it.from = q) >= 1
        ELSE s.proc[q].rs = {"normal"}
Unlinked == \A e \in h.unlk : e \notin s.links

\* C07: nothing is left pointing at the dead.
Clean == Quiet(s) =>
   /\ \A l \in s.links : \A q \in l : Live(s, q)
   /\ \A m \in s.mons : Live(s, m.owner) /\ Live(s, m.target)
   /\ \A a \in s.als : Live(s, a.owner)
   /\ \A x \in s.names : Live(s, x[2])

\* C01/C09/C10: a message sent once is there at most once per destination; a reply alias passes one message; timers keep to time.
MsgOnce == \A e \in h.sent : \A q \in Pids :
   Count(q, LAMBDA it : it.k = "u" /\ it.m = e.m) <= Len(e.dests)
TimerOk == \A e \in h.sent : e.tm # 0 =>
   LET c == Cardinality({<<q, i>> \in Pids \X (1..MaxOps) : i \in DOMAIN s.proc[q].mb /\ s.proc[q].mb[i].k = "u" /\ s.proc[q].mb[i].m = e.m}) IN
   /\ c <= 1
   /\ (e.tm \in h.cxl \/ s.now < e.due \/ \E t \in s.tms : t.tm = e.tm) => c = 0
   /\ (Quiet(s) /\ s.now >= e.due /\ e.tm \notin h.cxl /\ ~Reads /\ Live(s, e.dests[1][2]) /\ Kinds \cap {"ret", "exit", "panic"} = {}) => c = 1
ReplyOnce == \A a \in {e.dests[1][2] : e \in {e \in h.sent : e.dests[1][1] = "alias"}} :
   LET through == {e \in h.sent : e.dests = <<<<"alias", a, "">>>>}
       got == {e \in through : \E q \in Pids : Count(q, LAMBDA it : it.k = "u" /\ it.m = e.m) = 1}
       rep == \E m \in h.mon : m.ref = a
   IN rep => Cardinality(got) <= 1
AliasDown == \A m \in h.mon : Count(m.owner, LAMBDA it : it.k = "d" /\ it.ref = m.ref) = 1 => \A a \in s.als : a.ref # m.ref

\* C02: what is received is the first match and the rest keeps its order (the numbers of messages from one sender grow).
Order == Reads \/ \A q \in Pids : \A i, j \in DOMAIN s.proc[q].mb :
   (i < j /\ s.proc[q].mb[i].k = "u" /\ s.proc[q].mb[j].k = "u" /\ "sendafter" \notin Kinds) => s.proc[q].mb[i].m <= s.proc[q].mb[j].m

\* The runtime always comes to rest.
Rest == (~ENABLED Silent) => \A q \in Pids : s.proc[q].st \in {"none", "live", "dead"}

\* Once not alive, a process stays so, and its reason never changes once it is out of the table.
Stays == [][\A q \in Pids : /\ s.proc[q].st \in {"dying", "gone", "rel", "sig", "dead"} => s'.proc[q].st \notin {"none", "live"}
                            /\ Ended(s, q) => s'.proc[q].rs = s.proc[q].rs]_vars
=============================================================================
