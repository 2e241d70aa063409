------------------------------- MODULE Core -------------------------------
(***************************************************************************)
(* The hydra process runtime on one node: processes, mailboxes, selective  *)
(* receive, exit signals, links, monitors, registered names, aliases and   *)
(* timers.                                                                 *)
(*                                                                         *)
(* The whole state is one record s.  An operation op of process p          *)
(* (p = 0: code running outside of any process) is described by its        *)
(* outcomes  Outcomes(s, p, op) : a set of [s |-> next state, r |-> result]*)
(* and the runtime's own steps (a dying process being cleaned up, a timer  *)
(* firing) by  Steps(s).  The same operators are used by the exhaustive    *)
(* design check (CoreMC), by the script generator (CoreGen) and by the     *)
(* validation of recorded executions (CoreTrace, CoreConc).                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANT MaxP            \* process ids are 1..MaxP

Pids == 1..MaxP

NoBlk == [k |-> "no"]

NoProc == [st |-> "none", rs |-> {}, trap |-> FALSE, nm |-> "", mb |-> <<>>, blk |-> NoBlk, lt |-> {}, fin |-> FALSE]

InitS == [ proc  |-> [q \in Pids |-> NoProc],
           names |-> {},     \* set of <<name, pid>>
           links |-> {},     \* set of {p, q}
           mons  |-> {},     \* set of [ref, owner, target, dest]
           als   |-> {},     \* set of [ref, owner, reply, mon]
           tms   |-> {},     \* set of [tm, due, dests, item]
           now   |-> 0 ]

(***************************************************************************)
(* States of a process: none, live, dying (a fatal reason was accepted or  *)
(* the function ended; it is no longer alive but still in the tables),     *)
(* gone (removed from the process table), rel (its name is free),          *)
(* sig (notifying), dead.                                                  *)
(***************************************************************************)
Exists(s, q) == s.proc[q].st \in {"live", "dying"}
Act(s)       == {q \in Pids : s.proc[q].st # "none"}
Live(s, q)   == s.proc[q].st = "live"
Ended(s, q)  == s.proc[q].st \in {"gone", "rel", "sig", "dead"}

Item_U(ty, m)       == [k |-> "u", ty |-> ty, m |-> m]
Item_X(from, rs)    == [k |-> "x", from |-> from, rs |-> rs]
Item_D(ref, d, rs)  == [k |-> "d", ref |-> ref, d |-> d, rs |-> rs]

Deliver(s, q, item) ==
  IF q \in Pids /\ Exists(s, q)
  THEN [s EXCEPT !.proc[q].mb = Append(@, item)]
  ELSE s

\* A fatal reason is accepted.  When several are accepted before the process is cleaned up any of them may be reported.
Fatal(s, q, rs) == [s EXCEPT !.proc[q].st = "dying", !.proc[q].rs = @ \cup {rs}, !.proc[q].fin = FALSE]

\* The function of the process ended: from now on it may be seen as not alive (fin: it may still be seen as alive).
Finish(s, q, rs) ==
  IF s.proc[q].st = "live" THEN [Fatal(s, q, rs) EXCEPT !.proc[q].fin = TRUE]
  ELSE IF s.proc[q].st = "dying" /\ rs # "normal" THEN [s EXCEPT !.proc[q].rs = @ \cup {rs}]
  ELSE s

\* Exit signal sent explicitly.
ExitSig(s, q, from, rs) ==
  IF ~Exists(s, q) THEN s
  ELSE IF rs = "kill" THEN Fatal(s, q, rs)
  ELSE IF q = from THEN Fatal(s, q, rs)
  ELSE IF s.proc[q].trap THEN Deliver(s, q, Item_X(from, rs))
  ELSE IF rs \in {"normal", "ignore"} THEN s
  ELSE Fatal(s, q, rs)

\* Exit signal caused by a link.
LinkSig(s, q, from, rs) ==
  IF ~Exists(s, q) THEN s
  ELSE IF s.proc[q].trap THEN Deliver(s, q, Item_X(from, rs))
  ELSE IF rs = "normal" THEN s
  ELSE Fatal(s, q, rs)

NameOf(s, n) == LET S == {x \in s.names : x[1] = n} IN IF S = {} THEN 0 ELSE (CHOOSE x \in S : TRUE)[2]

LinksOf(s, q) == UNION {l \ {q} : l \in {l \in s.links : q \in l}}
MonsOn(s, q)  == {m \in s.mons : m.target = q}

AliasOff(s, ref) == [s EXCEPT !.als = {a \in @ : a.ref # ref}]

\* Delivers the down message of a monitor (the record must be in s.mons).
FireMon(s, m, rs) ==
  LET s1 == [s EXCEPT !.mons = @ \ {m}]
      s2 == Deliver(s1, m.owner, Item_D(m.ref, m.dest, rs))
  IN AliasOff(s2, m.ref)

(***************************************************************************)
(* Death in fine steps: each is one critical section of the runtime.       *)
(***************************************************************************)
DieSteps(s, q) ==
  CASE s.proc[q].st = "dying" ->
         { [s EXCEPT !.proc[q].st = "gone", !.proc[q].rs = {r}, !.proc[q].fin = FALSE, !.proc[q].mb = <<>>, !.proc[q].blk = NoBlk]
             : r \in s.proc[q].rs }
    [] s.proc[q].st = "gone" ->
         { [s EXCEPT !.proc[q].st = "rel", !.proc[q].nm = "",
                     !.names = {x \in @ : x[2] # q}] }
    [] s.proc[q].st = "rel" ->
         { [s EXCEPT !.proc[q].st = "sig", !.proc[q].lt = LinksOf(s, q),
                     !.links = {l \in @ : q \notin l}] }
    [] s.proc[q].st = "sig" ->
         LET rs == CHOOSE r \in s.proc[q].rs : TRUE
             L == { LinkSig([s EXCEPT !.proc[q].lt = @ \ {r}], r, q, rs) : r \in s.proc[q].lt }
             M == { FireMon(s, m, rs) : m \in MonsOn(s, q) }
         IN IF s.proc[q].lt = {} /\ MonsOn(s, q) = {}
            THEN { [s EXCEPT !.proc[q].st = "dead",
                             !.mons = {m \in @ : m.owner # q},
                             !.als = {a \in @ : a.owner # q}] }
            ELSE L \cup M
    [] OTHER -> {}

(***************************************************************************)
(* Death in one step, used where the code can not be observed in between.  *)
(* The order in which one recipient gets its notifications is free.        *)
(***************************************************************************)
Perms(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN f : i # j => f[i] # f[j]}

RECURSIVE FoldStates(_, _, _)
\* F(s, x) is a set of states
FoldStates(F(_, _), S, seq) ==
  IF seq = <<>> THEN S
  ELSE FoldStates(F, UNION {F(s, Head(seq)) : s \in S}, Tail(seq))

RECURSIVE ApplyNotes(_, _, _, _)
ApplyNotes(s, q, rs, notes) ==
  IF notes = <<>> THEN s
  ELSE LET n == Head(notes) IN
       ApplyNotes(IF n[1] = "l" THEN LinkSig(s, n[2], q, rs)
                  ELSE FireMon(s, CHOOSE m \in s.mons : m.ref = n[2], rs), q, rs, Tail(notes))

DieAll(s, q) ==
  IF s.proc[q].st # "dying" THEN {}
  ELSE UNION {
    LET lt == LinksOf(s, q)
        mt == MonsOn(s, q)
        s1 == [s EXCEPT !.proc[q] = [NoProc EXCEPT !.st = "dead", !.rs = {rs}],
                        !.names = {x \in @ : x[2] # q},
                        !.links = {l \in @ : q \notin l}]
        recips == SetToSeq(lt \cup {m.owner : m \in mt})
        Notes(r) == (IF r \in lt THEN {<<"l", r>>} ELSE {}) \cup {<<"m", m.ref>> : m \in {m \in mt : m.owner = r}}
        F(t, r) == { ApplyNotes(t, q, rs, ns) : ns \in Perms(Notes(r)) }
    IN { [t EXCEPT !.mons = {m \in @ : m.owner # q}, !.als = {a \in @ : a.owner # q}]
           : t \in FoldStates(F, {s1}, recips) }
    : rs \in s.proc[q].rs }

(***************************************************************************)
(* Sending.  A destination is a triple <<kind, number, name>>.             *)
(***************************************************************************)
SendOne(s, d, item) ==
  CASE d[1] = "pid"   -> Deliver(s, d[2], item)
    [] d[1] = "name"  -> Deliver(s, NameOf(s, d[3]), item)
    [] d[1] = "alias" ->
         LET A == {a \in s.als : a.ref = d[2]} IN
         IF A = {} THEN s
         ELSE LET a == CHOOSE a \in A : TRUE
                  s1 == IF a.reply THEN AliasOff(s, a.ref) ELSE s
              IN Deliver(s1, a.owner, item)

RECURSIVE SendAll(_, _, _)
SendAll(s, ds, item) == IF ds = <<>> THEN s ELSE SendAll(SendOne(s, Head(ds), item), Tail(ds), item)

(***************************************************************************)
(* Timers                                                                  *)
(***************************************************************************)
DueTimers(s) == {t \in s.tms : t.due <= s.now}
\* Only the earliest due timers may fire, so that timers fire in order of expiry.
FireSteps(s) == { SendAll([s EXCEPT !.tms = @ \ {t}], t.dests, t.item)
                    : t \in {t \in DueTimers(s) : \A u \in DueTimers(s) : t.due <= u.due} }

(***************************************************************************)
(* Receiving.  A filter is [ty, u, x, d]: the type of user messages, which *)
(* of them (-1 all, -2 none, -3 even, -4 odd, otherwise that very one),    *)
(* and whether Exit and Down messages are accepted.                        *)
(***************************************************************************)
Match(f, it) ==
  CASE it.k = "u" -> /\ it.ty = f.ty
                     /\ CASE f.u = -1 -> TRUE
                          [] f.u = -2 -> FALSE
                          [] f.u = -3 -> it.m % 2 = 0
                          [] f.u = -4 -> it.m % 2 = 1
                          [] OTHER    -> it.m = f.u
    [] it.k = "x" -> f.x
    [] it.k = "d" -> f.d

Mismatch(f, it) == it.k = "u" /\ it.ty # f.ty

FirstMatch(f, mb) == LET I == {i \in DOMAIN mb : Match(f, mb[i])} IN
                     IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
FirstMismatch(f, mb) == LET I == {i \in DOMAIN mb : Mismatch(f, mb[i])} IN
                     IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

\* What a receive by p finds now: "none", "panic" (strict only) or the item.
Found(s, p, f) ==
  LET mb == s.proc[p].mb
      i == FirstMatch(f, mb)
      j == FirstMismatch(f, mb)
  IN IF f.strict /\ j # 0 /\ (i = 0 \/ j < i) THEN [k |-> "panic"]
     ELSE IF i = 0 THEN [k |-> "none"] ELSE mb[i]

Take(s, p, f) == [s EXCEPT !.proc[p].mb = RemoveAt(@, FirstMatch(f, @))]

StrictPanic == "c:Unsupported message type!"

Blocked(s, p) == s.proc[p].blk.k # "no"

(***************************************************************************)
(* Operations                                                              *)
(***************************************************************************)
One(s, r) == {[s |-> s, r |-> r]}

NewProc(s, q) == [s EXCEPT !.proc[q] = [NoProc EXCEPT !.st = "live"]]

OpSpawn(s, p, op) ==
  LET s1 == NewProc(s, op.c)
      s2 == CASE op.kind = "link" -> [s1 EXCEPT !.links = @ \cup {{p, op.c}}]
              [] op.kind = "mon"  -> [s1 EXCEPT !.mons = @ \cup
                                       {[ref |-> op.ref, owner |-> p, target |-> op.c, dest |-> <<"pid", op.c, "">>]}]
              [] OTHER -> s1
  IN IF s.proc[op.c].st # "none" THEN {} ELSE One(s2, "ok")

OpLink(s, p, q) ==
  IF p = q THEN One(s, "ok")
  ELSE IF Exists(s, q)
       THEN One([s EXCEPT !.links = @ \cup {{p, q}}], "ok")
            \cup (IF s.proc[q].st = "dying" THEN One(LinkSig(s, p, q, "c:noproc"), "ok") ELSE {})
       ELSE One(LinkSig(s, p, q, "c:noproc"), "ok")

OpUnlink(s, p, q) == One([s EXCEPT !.links = @ \ {{p, q}}], "ok")

\* q is the resolved target (0: nothing there)
OpMonitorAt(s, p, op, q) ==
  LET noproc == [s |-> Deliver(s, p, Item_D(op.ref, op.dest, "c:noproc")), r |-> "ok"]
      m == [ref |-> op.ref, owner |-> p, target |-> q, dest |-> op.dest]
      installed == [s |-> [s EXCEPT !.mons = @ \cup {m},
                              !.als = @ \cup (IF op.alias = "none" THEN {}
                                              ELSE {[ref |-> op.ref, owner |-> p, reply |-> (op.alias = "reply"), mon |-> TRUE]})],
                    r |-> "ok"]
  IN IF q # 0 /\ Exists(s, q)
     THEN {installed} \cup (IF s.proc[q].st = "dying" THEN {noproc} ELSE {})
     ELSE {noproc}

Resolve(s, d) == CASE d[1] = "pid" -> d[2] [] d[1] = "name" -> NameOf(s, d[3]) [] OTHER -> 0

OpMonitor(s, p, op) ==
  IF op.dest[1] = "pid" /\ op.dest[2] = p THEN One(s, "panic")
  ELSE OpMonitorAt(s, p, op, Resolve(s, op.dest))

\* Only the owner demonitors.
OpDemonitor(s, p, ref) ==
  LET isdown(it) == it.k = "d" /\ it.ref = ref
      mine == \E m \in s.mons : m.ref = ref /\ m.owner = p
      s1 == [s EXCEPT !.mons = {m \in @ : ~(m.ref = ref /\ m.owner = p)},
                      !.proc[p].mb = SelectSeq(@, LAMBDA it : ~isdown(it))]
  IN One(IF mine THEN AliasOff(s1, ref) ELSE s1, "ok")

OpAlias(s, p, op) == One([s EXCEPT !.als = @ \cup {[ref |-> op.ref, owner |-> p, reply |-> op.reply, mon |-> FALSE]}], "ok")

OpUnalias(s, p, ref) ==
  IF \E a \in s.als : a.ref = ref /\ a.owner = p THEN One(AliasOff(s, ref), TRUE) ELSE One(s, FALSE)

OpRegister(s, q, n) ==
  LET cur == NameOf(s, n)
      ok == [s |-> [s EXCEPT !.names = @ \cup {<<n, q>>}, !.proc[q].nm = n], r |-> "ok"]
      err == [s |-> s, r |-> "err"]
  IN IF cur = q THEN {[s |-> s, r |-> "ok"]} \cup (IF Live(s, q) THEN {} ELSE {err})
     ELSE IF cur # 0 \/ ~Exists(s, q) \/ s.proc[q].nm # "" THEN {err}
     ELSE {ok} \cup (IF s.proc[q].st = "dying" THEN {err} ELSE {})

OpUnregister(s, n) ==
  LET q == NameOf(s, n) IN
  IF q = 0 THEN One(s, "panic")
  ELSE One([s EXCEPT !.names = @ \ {<<n, q>>}, !.proc[q].nm = ""], "ok")

OpSendAfter(s, op) ==
  One([s EXCEPT !.tms = @ \cup {[tm |-> op.tm, due |-> s.now + op.ms, dests |-> op.dests, item |-> Item_U(op.ty, op.m)]}], "ok")

OpCancel(s, tm) == One([s EXCEPT !.tms = {t \in @ : t.tm # tm}], "ok")

\* A pending timer shows what is left; a due one may have been fired or not.
OpReadT(s, tm) ==
  LET T == {t \in s.tms : t.tm = tm} IN
  IF T = {} THEN One(s, -1)
  ELSE LET t == CHOOSE t \in T : TRUE IN One(s, IF t.due > s.now THEN t.due - s.now ELSE 0)

Filter(op) == [ty |-> op.ty, u |-> op.u, x |-> op.x, d |-> op.d, strict |-> op.strict]

\* A receive that is polled once and then cancelled.
OpRecv(s, p, op) ==
  LET f == Filter(op)
      it == Found(s, p, f)
  IN IF it.k = "panic" THEN One(Finish(s, p, StrictPanic), it)
     ELSE IF it.k = "none" THEN One(s, it)
     ELSE One(Take(s, p, f), it)

\* Once seen as not alive a process stays so.
OpAlive(s, q) ==
  IF s.proc[q].st = "dying" /\ s.proc[q].fin
  THEN One(s, TRUE) \cup One([s EXCEPT !.proc[q].fin = FALSE], FALSE)
  ELSE One(s, Live(s, q))

OpRemove(s, p, op) ==
  LET f == Filter(op) IN
  One([s EXCEPT !.proc[p].mb = SelectSeq(@, LAMBDA it : ~Match(f, it))], "ok")

\* The start of a blocking receive (ms < 0: no timeout).
OpBlock(s, p, op) ==
  One([s EXCEPT !.proc[p].blk = [k |-> "recv", f |-> Filter(op), due |-> IF op.ms < 0 THEN -1 ELSE s.now + op.ms]], "ok")

\* The end of a blocking receive.
OpUnblock(s, p) ==
  IF ~Blocked(s, p) THEN {}
  ELSE LET b == s.proc[p].blk
           it == Found(s, p, b.f)
           s1 == [s EXCEPT !.proc[p].blk = NoBlk]
       IN (IF it.k = "panic" THEN One(Finish(s1, p, StrictPanic), it)
           ELSE IF it.k = "none" THEN {}
           ELSE One(Take(s1, p, b.f), it))
          \cup (IF b.due >= 0 /\ s.now >= b.due THEN One(s1, [k |-> "timeout"]) ELSE {})

Outcomes(s, p, op) ==
  CASE op.o = "spawn"      -> OpSpawn(s, p, op)
    [] op.o = "send"       -> One(SendAll(s, op.dests, Item_U(op.ty, op.m)), "ok")
    [] op.o = "exit"       -> One(ExitSig(s, op.q, p, op.rs), "ok")
    [] op.o = "link"       -> OpLink(s, p, op.q)
    [] op.o = "unlink"     -> OpUnlink(s, p, op.q)
    [] op.o = "monitor"    -> OpMonitor(s, p, op)
    [] op.o = "demonitor"  -> OpDemonitor(s, p, op.ref)
    [] op.o = "alias"      -> OpAlias(s, p, op)
    [] op.o = "unalias"    -> OpUnalias(s, p, op.ref)
    [] op.o = "register"   -> OpRegister(s, op.q, op.n)
    [] op.o = "unregister" -> OpUnregister(s, op.n)
    [] op.o = "whereis"    -> One(s, NameOf(s, op.n))
    [] op.o = "trap"       -> One([s EXCEPT !.proc[p].trap = op.v], "ok")
    [] op.o = "flags"      -> One(s, s.proc[p].trap)
    [] op.o = "alive"      -> OpAlive(s, op.q)
    [] op.o = "listed"     -> One(s, Exists(s, op.q))
    [] op.o = "sendafter"  -> OpSendAfter(s, op)
    [] op.o = "cancel"     -> OpCancel(s, op.tm)
    [] op.o = "readt"      -> OpReadT(s, op.tm)
    [] op.o = "recv"       -> OpRecv(s, p, op)
    [] op.o = "remove"     -> OpRemove(s, p, op)
    [] op.o = "recvb"      -> OpBlock(s, p, op)
    [] op.o = "recvd"      -> OpUnblock(s, p)
    [] op.o = "ret"        -> One(Finish(s, p, "normal"), "ok")
    [] op.o = "panic"      -> One(Finish(s, p, op.rs), "ok")

\* May p execute anything now?  A process that was given a fatal reason runs on until it next waits.
MayRun(s, p) == IF p = 0 THEN TRUE ELSE s.proc[p].st \in {"live", "dying"}

\* Nothing is left to do by the runtime, and every blocked receive has nothing to receive.
Quiet(s) ==
  /\ \A q \in Act(s) : s.proc[q].st \in {"live", "dead"}
  /\ DueTimers(s) = {}
  /\ \A q \in Act(s) : Blocked(s, q) => Found(s, q, s.proc[q].blk.f).k = "none" /\ ~(s.proc[q].blk.due >= 0 /\ s.now >= s.proc[q].blk.due)

\* What process information shows, at quiescence.
Info(s, q) == [nm |-> s.proc[q].nm, trap |-> s.proc[q].trap, links |-> LinksOf(s, q),
               monby |-> [o \in {m.owner : m \in MonsOn(s, q)} |-> Cardinality({m \in MonsOn(s, q) : m.owner = o})]]
==============================================================================
