-------------------------------- MODULE Gen --------------------------------
(* GenServer on top of the process runtime (Core): start, the server loop, calls, casts, replies, stop and terminate.
   A GenServer message is a user item of type "G" whose content is looked up in g.msg by its number. *)
EXTENDS Core

NoSrv == [ph |-> "no", parent |-> 0, name |-> "", due |-> -1, by |-> 0, rs |-> "", res |-> ""]
NoWait == [k |-> "no"]

\* g.srv[p]: the server running as process p; ph: new, reg (registered), init, idle, cb (in a callback), cbc (in handle_call),
\*   term (terminate is due with rs), terming (in it), over
\* g.wait[p]: what p waits for: a call, a stop or a start
\* g.par[p]: a process may do several things concurrently: what it waits for in each of its slots
InitG == [ srv |-> [q \in Pids |-> NoSrv], wait |-> [q \in Pids |-> NoWait], par |-> [q \in Pids |-> {}], msg |-> {} ]

Slot(op) == IF "sl" \in DOMAIN op THEN op.sl ELSE 0
InSlot(g, p, sl) == {x \in g.par[p] : x.sl = sl}
WaitOf(g, p, op) == IF Slot(op) = 0 THEN g.wait[p] ELSE IF InSlot(g, p, op.sl) = {} THEN NoWait ELSE (CHOOSE x \in InSlot(g, p, op.sl) : TRUE).w
SetWait(g, p, op, w) ==
  IF Slot(op) = 0 THEN [g EXCEPT !.wait[p] = w]
  ELSE [g EXCEPT !.par[p] = (@ \ InSlot(g, p, op.sl)) \cup (IF w.k = "no" THEN {} ELSE {[sl |-> op.sl, w |-> w]})]

Msg(g, m) == CHOOSE x \in g.msg : x.m = m
IsG(it) == it.k = "u" /\ it.ty = "G"
AddMsg(g, x) == [g EXCEPT !.msg = @ \cup {x}]

OneG(s, g, r) == {[s |-> s, g |-> g, r |-> r]}

Waiting(s, g, p) == g.wait[p].k # "no" \/ Blocked(s, p)
\* May p begin this operation?  What happens in a slot waits for what the slot waits for only.
MayBegin(s, g, p, op) == /\ ~Waiting(s, g, p)
                         /\ IF Slot(op) = 0 THEN g.par[p] = {} ELSE InSlot(g, p, op.sl) = {}

OpGStart(s, g, p, op) ==
  LET s1 == NewProc(s, op.c)
      s2 == IF op.link THEN [s1 EXCEPT !.links = @ \cup {{p, op.c}}] ELSE s1
      g1 == [g EXCEPT !.srv[op.c] = [NoSrv EXCEPT !.ph = "new", !.parent = IF op.link THEN p ELSE op.c, !.name = op.n,
                                       !.due = IF op.ms < 0 THEN -1 ELSE s.now + op.ms, !.by = p]]
  IN IF s.proc[op.c].st # "none" THEN {} ELSE OneG(s2, SetWait(g1, p, op, [k |-> "start", c |-> op.c]), "ok")

\* The result of the start is sent; it is lost if the starter has ended, which the server notices.
Result(s, g, c, r) ==
  LET g1 == [g EXCEPT !.srv[c].res = r] IN
  {[s |-> s, g |-> g1]} \cup
  (IF g.srv[c].by # 0 /\ s.proc[g.srv[c].by].st \notin {"live"}
   THEN {[s |-> Finish(s, c, "c:notify"), g |-> [g EXCEPT !.srv[c].ph = "over"]]} ELSE {})

\* The new process registers its name.
RegSteps(s, g, c) ==
  IF g.srv[c].ph # "new" \/ ~MayRun(s, c) THEN {}
  ELSE IF g.srv[c].name = "" THEN {[s |-> s, g |-> [g EXCEPT !.srv[c].ph = "reg"]]}
  ELSE UNION { IF x.r = "ok" THEN {[s |-> x.s, g |-> [g EXCEPT !.srv[c].ph = "reg"]]}
               ELSE {[s |-> Finish(y.s, c, "normal"), g |-> [y.g EXCEPT !.srv[c].ph = "over"]] : y \in Result(x.s, g, c, "c:already_started")}
               : x \in OpRegister(s, c, g.srv[c].name) }

\* Init takes too long.
InitTimeout(s, g, c) ==
  IF g.srv[c].ph # "init" \/ g.srv[c].due < 0 \/ s.now < g.srv[c].due \/ ~MayRun(s, c) THEN {}
  ELSE { [s |-> Fatal([y.s EXCEPT !.proc[c].blk = NoBlk], c, "c:timeout"), g |-> [y.g EXCEPT !.srv[c].ph = "over", !.wait[c] = NoWait]] : y \in Result(s, g, c, "c:timeout") }

\* The starter gets the result, or nothing if the server ended without one.
OpGStarted(s, g, p, op) ==
  IF WaitOf(g, p, op).k # "start" THEN {}
  ELSE LET c == WaitOf(g, p, op).c
           g1 == SetWait(g, p, op, NoWait)
       IN IF g.srv[c].res # "" THEN OneG(s, g1, g.srv[c].res)
          ELSE IF ~Live(s, c) THEN OneG(s, g1, "c:unknown") ELSE {}

Head1(s, p) == IF s.proc[p].mb = <<>> THEN [k |-> "none"] ELSE Head(s.proc[p].mb)
Pop(s, p) == [s EXCEPT !.proc[p].mb = Tail(@)]

\* What the head of the mailbox makes an idle server do: [k |-> "none" | "panic" | "stop" | "cb"]
Loop(s, g, p) ==
  LET it == Head1(s, p) IN
  IF it.k = "none" THEN [k |-> "none"]
  ELSE IF it.k = "u" /\ it.ty # "G" THEN [k |-> "panic"]
  ELSE IF it.k = "u" THEN
     LET x == Msg(g, it.m) IN
     CASE x.k = "stop"  -> [k |-> "stop", rs |-> x.rs]
       [] x.k = "reply" -> [k |-> "cb", kind |-> "info", it |-> [k |-> "u", ty |-> "G", m |-> x.m]]
       [] x.k = "call"  -> [k |-> "cb", kind |-> "call", m |-> x.m, from |-> x.from]
       [] x.k = "cast"  -> [k |-> "cb", kind |-> "cast", m |-> x.m]
  ELSE IF it.k = "x" /\ it.from = g.srv[p].parent THEN [k |-> "stop", rs |-> it.rs]
  ELSE [k |-> "cb", kind |-> "info", it |-> it]

\* A callback begins.
OpCb(s, g, p, op) ==
  LET v == g.srv[p] IN
  CASE op.kind = "init" -> IF v.ph = "reg" THEN OneG(s, [g EXCEPT !.srv[p].ph = "init"], "ok") ELSE {}
    [] op.kind = "term" ->
         IF v.ph = "term" THEN (IF v.rs = op.rs THEN OneG(s, [g EXCEPT !.srv[p].ph = "terming"], "ok") ELSE {})
         ELSE IF v.ph = "idle" /\ Loop(s, g, p).k = "stop"
              THEN (IF Loop(s, g, p).rs = op.rs THEN OneG(Pop(s, p), [g EXCEPT !.srv[p].ph = "terming", !.srv[p].rs = op.rs], "ok") ELSE {})
              ELSE {}
    [] OTHER ->
         IF v.ph # "idle" THEN {}
         ELSE LET w == Loop(s, g, p) IN
              IF w.k # "cb" THEN {}
              ELSE IF w.kind # op.kind THEN {}
              ELSE IF (CASE op.kind = "info" -> w.it = op.it
                         [] op.kind = "call" -> w.m = op.m /\ w.from = op.from
                         [] op.kind = "cast" -> w.m = op.m)
                   THEN OneG(Pop(s, p), [g EXCEPT !.srv[p].ph = IF op.kind = "call" THEN "cbc" ELSE "cb",
                                                  !.srv[p].rs = IF op.kind = "call" THEN ToString(op.m) ELSE ""], "ok")
                   ELSE {}

\* A reply to call number c with content m.
Reply(s, g, c, m) ==
  LET x == Msg(g, c) IN
  [s |-> SendOne(s, <<"alias", x.tag, "">>, Item_U("G", m)),
   g |-> AddMsg(g, [m |-> m, k |-> "reply", tag |-> x.tag, from |-> x.from, rs |-> ""])]

\* A callback ends.  op.r: ok, err, reply or noreply.
OpCbe(s, g, p, op) ==
  LET v == g.srv[p]
      r == op.res
  IN CASE v.ph = "init" ->
            IF r.k = "ok" THEN { [s |-> y.s, g |-> [y.g EXCEPT !.srv[p].ph = IF y.g.srv[p].ph = "over" THEN "over" ELSE "idle"], r |-> "ok"] : y \in Result(s, g, p, "ok") }
            ELSE { [s |-> IF y.g.srv[p].ph = "over" THEN y.s ELSE Fatal(y.s, p, r.rs), g |-> [y.g EXCEPT !.srv[p].ph = "over"], r |-> "ok"] : y \in Result(s, g, p, r.rs) }
       [] v.ph = "terming" -> OneG(Fatal(s, p, v.rs), [g EXCEPT !.srv[p].ph = "over"], "ok")
       [] v.ph = "cbc" ->
            IF r.k = "reply" THEN LET y == Reply(s, g, op.call, r.m) IN
                 IF ToString(op.call) = v.rs THEN OneG(y.s, [y.g EXCEPT !.srv[p].ph = "idle"], "ok") ELSE {}
            ELSE IF r.k = "noreply" THEN OneG(s, [g EXCEPT !.srv[p].ph = "idle"], "ok")
            ELSE IF r.k = "err" THEN OneG(s, [g EXCEPT !.srv[p].ph = "term", !.srv[p].rs = r.rs], "ok") ELSE {}
       [] v.ph = "cb" ->
            IF r.k = "ok" THEN OneG(s, [g EXCEPT !.srv[p].ph = "idle"], "ok")
            ELSE IF r.k = "err" THEN OneG(s, [g EXCEPT !.srv[p].ph = "term", !.srv[p].rs = r.rs], "ok") ELSE {}
       [] OTHER -> {}

\* An idle server finds a message that is not of its type.
LoopPanic(s, g, p) ==
  IF g.srv[p].ph = "idle" /\ MayRun(s, p) /\ Loop(s, g, p).k = "panic"
  THEN {[s |-> Finish(s, p, StrictPanic), g |-> [g EXCEPT !.srv[p].ph = "over"]]} ELSE {}

SelfPanic(s, g, p) == OneG(Finish(s, p, "c:Can not monitor yourself!"), [g EXCEPT !.srv[p].ph = "over"], "ok")

OpGCall(s, g, p, op) ==
  IF op.dest[1] = "pid" /\ op.dest[2] = p THEN SelfPanic(s, g, p) ELSE
  { LET g1 == AddMsg(g, [m |-> op.m, k |-> "call", tag |-> op.ref, from |-> p, rs |-> ""])
    IN [s |-> SendOne(x.s, op.dest, Item_U("G", op.m)),
        g |-> SetWait(g1, p, op, [k |-> "call", ref |-> op.ref, due |-> s.now + (IF op.ms < 0 THEN 5000 ELSE op.ms)]), r |-> "ok"]
    : x \in OpMonitorAt(s, p, [ref |-> op.ref, dest |-> op.dest, alias |-> "reply"], Resolve(s, op.dest)) }

Mine(g, it, ref) == (it.k = "d" /\ it.ref = ref) \/ (IsG(it) /\ Msg(g, it.m).k = "reply" /\ Msg(g, it.m).tag = ref)
FirstMine(s, g, p, ref) ==
  LET mb == s.proc[p].mb
      I == {i \in DOMAIN mb : Mine(g, mb[i], ref)} IN
  IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

Forget(s, g, p, ref) == \* nothing of the call is left
  LET s1 == OpDemonitor(s, p, ref) IN
  [ (CHOOSE x \in s1 : TRUE).s EXCEPT !.proc[p].mb = SelectSeq(@, LAMBDA it : ~Mine(g, it, ref)) ]

OpGCalled(s, g, p, op) ==
  IF WaitOf(g, p, op).k # "call" THEN {}
  ELSE LET w == WaitOf(g, p, op)
           i == FirstMine(s, g, p, w.ref)
           it == s.proc[p].mb[i]
           g1 == SetWait(g, p, op, NoWait)
           s1 == Forget(s, g, p, w.ref)
       IN (IF i = 0 THEN {}
           ELSE OneG(s1, g1, IF it.k = "d" THEN [k |-> "down", rs |-> it.rs] ELSE [k |-> "ok", m |-> it.m]))
          \cup (IF s.now >= w.due THEN OneG(s1, g1, [k |-> "timeout"]) ELSE {})

OpGStop(s, g, p, op) ==
  IF op.dest[1] = "pid" /\ op.dest[2] = p THEN SelfPanic(s, g, p) ELSE
  { LET g1 == AddMsg(g, [m |-> op.m, k |-> "stop", tag |-> 0, from |-> p, rs |-> op.rs])
    IN [s |-> SendOne(x.s, op.dest, Item_U("G", op.m)),
        g |-> SetWait(g1, p, op, [k |-> "stop", ref |-> op.ref, rs |-> op.rs, due |-> IF op.ms < 0 THEN -1 ELSE s.now + op.ms]), r |-> "ok"]
    : x \in OpMonitorAt(s, p, [ref |-> op.ref, dest |-> op.dest, alias |-> "none"], Resolve(s, op.dest)) }

OpGStopped(s, g, p, op) ==
  IF WaitOf(g, p, op).k # "stop" THEN {}
  ELSE LET w == WaitOf(g, p, op)
           i == FirstMine(s, g, p, w.ref)
           it == s.proc[p].mb[i]
           g1 == SetWait(g, p, op, NoWait)
           s1 == Forget(s, g, p, w.ref)
       IN (IF i = 0 THEN {} ELSE OneG(s1, g1, IF it.rs = w.rs THEN "ok" ELSE it.rs))
          \cup (IF w.due >= 0 /\ s.now >= w.due THEN OneG(s1, g1, "c:timeout") ELSE {})

OpGReply(s, g, op) == LET y == Reply(s, g, op.call, op.m) IN OneG(y.s, y.g, "ok")

OpGCast(s, g, op) ==
  OneG(SendAll(s, op.dests, Item_U("G", op.m)), AddMsg(g, [m |-> op.m, k |-> "cast", tag |-> 0, from |-> 0, rs |-> ""]), "ok")
OpGCastAfter(s, g, op) ==
  OneG([s EXCEPT !.tms = @ \cup {[tm |-> op.tm, due |-> s.now + op.ms, dests |-> op.dests, item |-> Item_U("G", op.m)]}],
       AddMsg(g, [m |-> op.m, k |-> "cast", tag |-> 0, from |-> 0, rs |-> ""]), "ok")

\* Sleeping is a receive that nothing ends but its timeout.
NoFilter == [ty |-> "S", u |-> -2, x |-> FALSE, d |-> FALSE, strict |-> FALSE]
OpSleep(s, g, p, op) ==
  LET w == [k |-> "recv", f |-> NoFilter, due |-> s.now + op.ms] IN
  IF Slot(op) = 0 THEN OneG([s EXCEPT !.proc[p].blk = w], g, "ok") ELSE OneG(s, SetWait(g, p, op, w), "ok")

\* A blocking receive in a slot: the same as Core's, but other slots go on (and may take messages) meanwhile.
OpBlockIn(s, g, p, op) ==
  OneG(s, SetWait(g, p, op, [k |-> "recv", f |-> Filter(op), due |-> IF op.ms < 0 THEN -1 ELSE s.now + op.ms]), "ok")
OpUnblockIn(s, g, p, op) ==
  LET w == WaitOf(g, p, op) IN
  IF w.k # "recv" THEN {}
  ELSE { [s |-> [x.s EXCEPT !.proc[p].blk = NoBlk], g |-> SetWait(g, p, op, NoWait), r |-> x.r] : x \in OpUnblock([s EXCEPT !.proc[p].blk = w], p) }

GOutcomes(s, g, p, op) ==
  CASE op.o = "gstart"    -> OpGStart(s, g, p, op)
    [] op.o = "gstarted"  -> OpGStarted(s, g, p, op)
    [] op.o = "cb"        -> OpCb(s, g, p, op)
    [] op.o = "cbe"       -> OpCbe(s, g, p, op)
    [] op.o = "gcall"     -> OpGCall(s, g, p, op)
    [] op.o = "gcalled"   -> OpGCalled(s, g, p, op)
    [] op.o = "gstop"     -> OpGStop(s, g, p, op)
    [] op.o = "gstopped"  -> OpGStopped(s, g, p, op)
    [] op.o = "greply"    -> OpGReply(s, g, op)
    [] op.o = "gcast"     -> OpGCast(s, g, op)
    [] op.o = "gcastafter" -> OpGCastAfter(s, g, op)
    [] op.o = "sleep"     -> OpSleep(s, g, p, op)
    [] op.o = "recvb" /\ Slot(op) # 0 -> OpBlockIn(s, g, p, op)
    [] op.o = "recvd" /\ Slot(op) # 0 -> OpUnblockIn(s, g, p, op)
    [] OTHER -> { [s |-> x.s, g |-> g, r |-> x.r] : x \in Outcomes(s, p, op) }

Ends == {"recvd", "gstarted", "gcalled", "gstopped"}

GSilent(s, g) ==
  UNION { RegSteps(s, g, c) \cup InitTimeout(s, g, c) \cup LoopPanic(s, g, c) : c \in Act(s) }
  \cup { [s |-> t, g |-> g] : t \in FireSteps(s) \cup UNION { DieAll(s, q) : q \in Act(s) } }

\* Nothing ends this wait.
Unended(s, g, p, w) ==
  CASE w.k \in {"call", "stop"} -> FirstMine(s, g, p, w.ref) = 0 /\ (w.due < 0 \/ s.now < w.due)
    [] w.k = "start" -> Live(s, w.c) /\ g.srv[w.c].res = ""
    [] w.k = "recv" -> Found(s, p, w.f).k = "none" /\ (w.due < 0 \/ s.now < w.due)
    [] OTHER -> TRUE

\* Nothing is left to do.
GQuiet(s, g) ==
  /\ Quiet(s)
  /\ \A p \in Act(s) : Live(s, p) =>
       /\ g.srv[p].ph \notin {"new", "reg", "term", "over"}
       /\ g.srv[p].ph = "idle" => Loop(s, g, p).k = "none"
       /\ g.srv[p].ph = "init" => g.srv[p].due < 0 \/ s.now < g.srv[p].due
       /\ Unended(s, g, p, g.wait[p])
       /\ \A x \in g.par[p] : Unended(s, g, p, x.w)
==============================================================================
