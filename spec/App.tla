-------------------------------- MODULE App --------------------------------
(* An application: it runs from the call of run until the process returned by start has ended.  Times are milliseconds. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANT Slack    \* how late, at most, what is due may be

\* c = [graceful, timeout, test, trap]: the configuration; m = the state of the run.
InitM == [st |-> "none", root |-> "none", doom |-> FALSE, sig |-> -1, told |-> FALSE, how |-> "no", handler |-> FALSE, reason |-> "no", early |-> FALSE]

Failed(m) == m.st = "failed"
\* Whether the root process may end at time t.
MayEnd(c, m, t) ==
  \/ m.doom
  \/ m.sig >= 0 /\ ~c.trap
  \/ m.sig >= 0 /\ m.told /\ t >= m.sig + c.timeout
Cause(c, m) == IF m.doom THEN m.reason ELSE IF ~c.trap THEN "c:shutdown" ELSE "kill"
MustEnd(c, m, t) ==
  \/ Failed(m)
  \/ m.root = "ended"
  \/ m.doom
  \/ m.sig >= 0 /\ ~c.trap /\ t >= m.sig + Slack
  \/ m.sig >= 0 /\ t >= m.sig + c.timeout + Slack
TestPanics(r) == r \notin {"normal", "kill", "ignore", "c:shutdown"}

Step(c, m, e, t) ==
  CASE e.o = "run" /\ m.st \in {"none", "returned"} -> {[InitM EXCEPT !.st = "starting"]}
    [] e.o = "up" /\ m.st \in {"starting", "running"} /\ m.root = "none" -> {[m EXCEPT !.root = "live"]}
    [] e.o = "startret" /\ m.st = "starting" -> {[m EXCEPT !.st = IF e.ok THEN "running" ELSE "failed"]}
    [] e.o = "handler" -> {[m EXCEPT !.handler = TRUE]}
    \* a request to end: with graceful shutdown it is passed on, otherwise it ends everything
    [] e.o = "term" /\ m.st = "running" /\ c.graceful /\ ~c.test /\ m.handler -> {[m EXCEPT !.sig = IF @ < 0 THEN t ELSE @]}
    \* too late to matter
    [] e.o = "term" /\ m.st = "returned" -> {m}
    [] e.o = "term" /\ ~(c.graceful /\ ~c.test) -> {[m EXCEPT !.st = "terminated"]}
    [] e.o = "rexit" /\ m.root = "live" /\ e.from = "app" /\ e.r = "c:shutdown" /\ m.sig >= 0 /\ ~m.told /\ c.trap -> {[m EXCEPT !.told = TRUE]}
    [] e.o = "rexit" /\ e.from = "x" -> {m}
    [] e.o = "rend" /\ m.root \in {"live", "ended"} -> {IF m.doom \/ m.root = "ended" THEN m ELSE [m EXCEPT !.doom = TRUE, !.reason = e.r]}
    [] e.o = "gone" /\ m.root = "live" /\ MayEnd(c, m, t) -> {[m EXCEPT !.root = "ended", !.reason = Cause(c, m), !.early = (m.st = "starting")]}
    [] e.o = "returned" /\ m.st = "running" /\ m.root = "ended" ->
         \* (a process that ended before it could be monitored ended for a reason nobody knows, unless the link told)
         IF (e.panic = (c.test /\ TestPanics(m.reason))) \/ (m.early /\ e.panic = c.test) THEN {[m EXCEPT !.st = "returned"]} ELSE {}
    [] e.o = "returned" /\ m.st = "failed" /\ (~c.test => ~e.panic) -> {[m EXCEPT !.st = "returned"]}
    \* it still runs, though it had all the time it needed
    [] e.o = "still" /\ m.st \in {"starting", "running"} /\ ~MustEnd(c, m, t) -> {m}
    [] e.o = "exit" /\ m.st = "returned" /\ e.code = 0 -> {[m EXCEPT !.st = "over"]}
    [] e.o = "exit" /\ m.st = "terminated" /\ e.code = -15 -> {[m EXCEPT !.st = "over"]}
    [] m.st = "terminated" /\ e.o \notin {"exit", "still"} -> {m}
    [] OTHER -> {}
=============================================================================
