------------------------------- MODULE AppMC -------------------------------
(* Design check: the protocol of the application (an implementation of the interface App describes) in all orders of events:
   the application process with its mailbox and its timer, the signal handler, the root process. *)
EXTENDS App

CONSTANTS MaxT, Timeouts

VARIABLES c, m, now, mbox, timer, sent, pend, prev
vars == <<c, m, now, mbox, timer, sent, pend, prev>>
(* mbox: what the application process has still to see; pend: exit signals and the end under way for the root. *)
Init ==
  /\ c \in [graceful : BOOLEAN, timeout : Timeouts, test : {FALSE}, trap : BOOLEAN]
  /\ m = [InitM EXCEPT !.st = "running", !.root = "live", !.handler = TRUE]
  /\ now = 0 /\ mbox = <<>> /\ timer = -1 /\ sent = 0 /\ pend = "no" /\ prev = <<>>
Do(e) == m' \in Step(c, m, e, now)
Tick == now < MaxT /\ now' = now + 1 /\ UNCHANGED <<c, m, mbox, timer, sent, pend, prev>>
Signal == sent < 2 /\ sent' = sent + 1 /\ m.st = "running" /\ Do([o |-> "term"])
          /\ mbox' = (IF c.graceful /\ sent = 0 THEN Append(mbox, "sigproc") ELSE mbox)
          /\ UNCHANGED <<c, now, timer, pend, prev>>
SelfEnd == m.root = "live" /\ ~m.doom /\ Do([o |-> "rend", r |-> "normal"]) /\ UNCHANGED <<c, now, mbox, timer, sent, pend, prev>>
Noise == Len(mbox) < 3 /\ mbox' = Append(mbox, "noise") /\ UNCHANGED <<c, m, now, timer, sent, pend, prev>>
\* the application process
See ==
  /\ mbox # <<>> /\ m.st = "running"
  /\ mbox' = Tail(mbox)
  /\ CASE Head(mbox) = "sigproc" -> /\ timer' = now + c.timeout
                                    /\ pend' = (IF m.root = "live" /\ pend = "no" THEN "shutdown" ELSE pend)
                                    /\ UNCHANGED <<m, prev>>
       [] Head(mbox) = "timeout" -> pend' = (IF m.root = "live" THEN "kill" ELSE pend) /\ UNCHANGED <<m, timer, prev>>
       [] Head(mbox) = "rootdown" -> Do([o |-> "returned", panic |-> FALSE]) /\ prev' = <<m.root>> /\ UNCHANGED <<timer, pend>>
       [] OTHER -> UNCHANGED <<m, timer, pend, prev>>
  /\ UNCHANGED <<c, now, sent>>
Fire == timer >= 0 /\ now >= timer /\ timer' = -1 /\ mbox' = Append(mbox, "timeout") /\ UNCHANGED <<c, m, now, sent, pend, prev>>
\* the root process
Hear == pend = "shutdown" /\ c.trap /\ m.root = "live" /\ Do([o |-> "rexit", from |-> "app", r |-> "c:shutdown"]) /\ pend' = "heard"
        /\ UNCHANGED <<c, now, mbox, timer, sent, prev>>
End == /\ m.root = "live"
       /\ m.doom \/ (pend = "shutdown" /\ ~c.trap) \/ (pend = "kill" /\ (c.trap => m.told))
       /\ Do([o |-> "gone"])
       /\ mbox' = Append(mbox, "rootdown") /\ UNCHANGED <<c, now, timer, sent, pend, prev>>
Next == Tick \/ Signal \/ SelfEnd \/ Noise \/ See \/ Fire \/ Hear \/ End
Spec == Init /\ [][Next]_vars

\* What the implementation wants to do, the interface allows.
EndOk == (m.root = "live" /\ (m.doom \/ (pend = "shutdown" /\ ~c.trap) \/ (pend = "kill" /\ (c.trap => m.told)))) =>
            m.st = "terminated" \/ MayEnd(c, m, now)
ReturnOk == m.st = "returned" => m.root = "ended" /\ prev = <<"ended">>
NotEarly == pend = "kill" => now >= m.sig + c.timeout
HearOk == (pend = "shutdown" /\ c.trap /\ m.root = "live" /\ m.st = "running") => (m.sig >= 0 /\ ~m.told)
=============================================================================
