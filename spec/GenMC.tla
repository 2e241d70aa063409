------------------------------- MODULE GenMC -------------------------------
(* Exhaustive check of the design of GenServers: clients 1 and 2, a server 3 started by client 1, every interleaving of at most
   MaxOps operations with every choice of callback results, and time. *)
EXTENDS Gen

CONSTANTS Kinds, MaxOps, MaxTime

VARIABLES s, g, n, h
vars == <<s, g, n, h>>

\* h.ret: returned calls [p, m, ref, r]; h.call: calls [p, m, ref, t]; h.term: terminate callbacks [p, rs]; h.after: a callback began after terminate
InitH == [ret |-> {}, call |-> {}, term |-> <<>>, after |-> FALSE, start |-> {}, stopped |-> {}, handled |-> <<>>]

Init == s = NewProc(NewProc(InitS, 1), 2) /\ g = InitG /\ n = 0 /\ h = InitH

Srv == 3
Clients == {1, 2}
Free(p, op) == MayRun(s, p) /\ MayBegin(s, g, p, op)
\* With "par" a client may have two calls under way.
Slots == IF "par" \in Kinds THEN {0, 1, 2} ELSE {0}
Opt(k, S) == IF k \in Kinds THEN S ELSE {}
D == <<"pid", Srv, "">>
Born == s.proc[Srv].st # "none"

ClientOps(p) ==
  (IF p = 1 /\ ~Born THEN {[o |-> "gstart", c |-> Srv, link |-> lk, n |-> "a", ms |-> ms] : lk \in BOOLEAN, ms \in {-1, 1}} ELSE {})
  \cup (IF Born THEN
     Opt("call", {[o |-> "gcall", dest |-> d, m |-> n + 1, ref |-> n + 1, ms |-> 1] : d \in {D, <<"name", 0, "a">>}})
     \cup Opt("par", {[o |-> "gcall", dest |-> D, m |-> n + 1, ref |-> n + 1, ms |-> 1, sl |-> i] : i \in {1, 2}})
     \cup Opt("cast", {[o |-> "gcast", dests |-> <<D>>, m |-> n + 1]})
     \cup Opt("stop", {[o |-> "gstop", dest |-> D, m |-> n + 1, ref |-> n + 1, rs |-> rs, ms |-> 1] : rs \in {"normal", "c:x"}})
     \cup Opt("exit", {[o |-> "exit", q |-> Srv, rs |-> rs] : rs \in {"kill", "c:x"}})
     \cup Opt("ret", {[o |-> "ret"]})
     \cup Opt("reply", {[o |-> "greply", call |-> x.m, m |-> 1000 + n] : x \in {x \in g.msg : x.k = "call"}})
     \cup Opt("send", {[o |-> "send", dests |-> <<<<"pid", 2, "">>>>, ty |-> "S", m |-> n + 1]})
   ELSE {})

ClientStep == /\ n < MaxOps
              /\ \E p \in Clients : \E op \in ClientOps(p) : Free(p, op) /\ \E x \in GOutcomes(s, g, p, op) :
                   /\ s' = x.s /\ g' = x.g
                   /\ h' = IF op.o = "gcall" THEN [h EXCEPT !.call = @ \cup {[p |-> p, m |-> op.m, ref |-> op.ref, t |-> s.now]}] ELSE h
              /\ n' = n + 1

EndOf(w) == CASE w.k = "call" -> "gcalled" [] w.k = "stop" -> "gstopped" [] OTHER -> "gstarted"

EndStep ==
  /\ \E p \in Clients : MayRun(s, p) /\ \E sl \in Slots :
       LET op0 == IF sl = 0 THEN [o |-> "?"] ELSE [o |-> "?", sl |-> sl]
           w == WaitOf(g, p, op0)
       IN /\ w.k # "no"
          /\ \E x \in GOutcomes(s, g, p, [op0 EXCEPT !.o = EndOf(w)]) :
               /\ s' = x.s /\ g' = x.g
               /\ h' = CASE w.k = "call" -> [h EXCEPT !.ret = @ \cup {[p |-> p, m |-> (CHOOSE c \in h.call : c.p = p /\ c.ref = w.ref).m, ref |-> w.ref, r |-> x.r]}]
                         [] w.k = "start" -> [h EXCEPT !.start = {x.r}]
                         [] OTHER -> [h EXCEPT !.stopped = @ \cup {[r |-> x.r, rs |-> w.rs]}]
  /\ UNCHANGED n

\* What a server's callback may do: results and one operation.
Results == LET v == g.srv[Srv] IN
  CASE v.ph = "init" -> {[k |-> "ok"], [k |-> "err", rs |-> "c:i"]}
    [] v.ph = "terming" -> {[k |-> "ok"]}
    [] v.ph = "cb" -> {[k |-> "ok"], [k |-> "err", rs |-> "c:e"]}
    [] v.ph = "cbc" -> {[k |-> "reply", m |-> 100 + h.handled[Len(h.handled)]], [k |-> "noreply"], [k |-> "err", rs |-> "c:e"]}
    [] OTHER -> {}

ServerStep ==
  /\ Born /\ MayRun(s, Srv) /\ ~Blocked(s, Srv)
  /\ \/ \E k \in {"init", "call", "cast", "info", "term"} :
          LET w == Loop(s, g, Srv)
              op == [o |-> "cb", kind |-> k, rs |-> IF g.srv[Srv].ph = "term" THEN g.srv[Srv].rs ELSE IF w.k = "stop" THEN w.rs ELSE "",
                     m |-> IF w.k = "cb" /\ w.kind \in {"call", "cast"} THEN w.m ELSE 0,
                     from |-> IF w.k = "cb" /\ w.kind = "call" THEN w.from ELSE 0,
                     it |-> IF w.k = "cb" /\ w.kind = "info" THEN w.it ELSE [k |-> "none"]]
          IN \E x \in OpCb(s, g, Srv, op) :
               /\ s' = x.s /\ g' = x.g
               /\ h' = [h EXCEPT !.after = @ \/ h.term # <<>>,
                                 !.term = IF k = "term" THEN Append(@, op.rs) ELSE @,
                                 !.handled = IF k \in {"call", "cast"} THEN Append(@, op.m) ELSE @]
     \/ \E r \in Results : \E x \in OpCbe(s, g, Srv, [o |-> "cbe", res |-> r, call |-> IF g.srv[Srv].ph = "cbc" THEN h.handled[Len(h.handled)] ELSE 0]) :
          s' = x.s /\ g' = x.g /\ h' = h
     \/ g.srv[Srv].ph = "init" /\ "trap" \in Kinds /\ ~s.proc[Srv].trap /\ s' = [s EXCEPT !.proc[Srv].trap = TRUE] /\ g' = g /\ h' = h
  /\ UNCHANGED n

Silent ==
  /\ \/ \E x \in GSilent(s, g) : s' = x.s /\ g' = x.g
     \/ s.now < MaxTime /\ s' = [s EXCEPT !.now = @ + 1] /\ g' = g
  /\ UNCHANGED <<n, h>>

Next == ClientStep \/ EndStep \/ ServerStep \/ Silent
Spec == Init /\ [][Next]_vars

\* C11: a reply belongs to that very call, and a timeout is not early.
OwnReply == \A x \in h.ret :
   /\ x.r.k = "ok" => Msg(g, x.r.m).tag = x.ref /\ Msg(g, x.r.m).from = x.p
   /\ x.r.k = "timeout" => \A c \in h.call : c.ref = x.ref => s.now >= c.t + 1
   /\ x.r.k = "down" => ~Live(s, Srv) \/ x.r.rs = "c:noproc"
\* After a call returned nothing of it is left, ever.
NothingLeft == \A x \in h.ret :
   /\ \A m \in s.mons : m.ref # x.ref
   /\ \A a \in s.als : a.ref # x.ref
   /\ \A i \in DOMAIN s.proc[x.p].mb : ~Mine(g, s.proc[x.p].mb[i], x.ref)
\* C12
OneTerm == Len(h.term) <= 1 /\ ~h.after
\* The reason terminate was given is the one the process ends with, unless something else killed it meanwhile.
TermReason == (h.term # <<>> /\ s.proc[Srv].st = "dead" /\ Kinds \cap {"exit", "ret"} = {}) => s.proc[Srv].rs = {h.term[1]}
StartResult == \A r \in h.start :
   /\ r = "ok" => g.srv[Srv].res = "ok"
   /\ (r \notin {"ok"} /\ Quiet(s)) => ~Live(s, Srv)
NameFree == (s.proc[Srv].st = "dead") => NameOf(s, "a") = 0
StopOk == \A x \in h.stopped : x.r = "ok" => (~Live(s, Srv) /\ x.rs \in s.proc[Srv].rs)
\* Every message is handled at most once, those of one client in the order they were sent.
InOrder == \A i, j \in DOMAIN h.handled : i < j =>
   /\ h.handled[i] # h.handled[j]
   /\ (Msg(g, h.handled[i]).from = Msg(g, h.handled[j]).from /\ Msg(g, h.handled[i]).from # 0) => h.handled[i] < h.handled[j]
=============================================================================
