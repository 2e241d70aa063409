--------------------------------- MODULE Ws ---------------------------------
(* One websocket connection: the frames of the client, the messages to its process, the callbacks of the handler, what the
   client receives, and the end.  An action is what a frame or message makes the handler do: [cmds, err, panic]. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Act0 == [cmds |-> <<>>, err |-> "", panic |-> FALSE]
\* inq, infq: what the handler has still to see; out: what the client has still to receive.
InitC == [ph |-> "none", inq |-> <<>>, infq |-> <<>>, cur |-> Act0, curk |-> "no", out |-> <<>>, rsn |-> "no",
          lossy |-> FALSE, fin |-> FALSE, closing |-> FALSE, exits |-> {}, trap |-> FALSE, init |-> Act0, onclose |-> Act0, eof |-> FALSE]

\* The commands up to the first that closes.
RECURSIVE Sends(_)
Sends(l) == IF l = <<>> \/ Head(l).k = "c" THEN <<>> ELSE <<[k |-> Head(l).k, d |-> Head(l).d]>> \o Sends(Tail(l))
CloseOf(l) == {l[i] : i \in {j \in DOMAIN l : l[j].k = "c" /\ \A m \in 1..(j - 1) : l[m].k # "c"}}

\* The end of a callback: an error ends the connection, otherwise the commands are executed.
AfterCb(c) ==
  LET sends == Sends(c.cur.cmds)
      cl == CloseOf(c.cur.cmds) IN
  IF c.cur.err # "" THEN {[c EXCEPT !.ph = "ending", !.rsn = c.cur.err]}
  \* the peer has closed: nothing can be sent any more
  ELSE IF c.closing THEN {[c EXCEPT !.ph = "ending", !.rsn = IF sends = <<>> /\ cl = {} THEN "c:connection_closed" ELSE "any"]}
  ELSE IF cl # {} THEN {[c EXCEPT !.out = (@ \o sends) \o <<[k |-> "close", d |-> (CHOOSE x \in cl : TRUE).d]>>, !.ph = "ending", !.rsn = "normal"]}
  ELSE {[c EXCEPT !.ph = "idle", !.out = @ \o sends]}

\* A ping and a close are answered before the handler sees them.
Answered(k) == k \in {"ping", "close"}
Reply(c) ==
  IF c.ph = "idle" /\ c.inq # <<>> /\ Answered(Head(c.inq).k)
  THEN {[c EXCEPT !.ph = "replied", !.out = Append(@, [k |-> IF Head(c.inq).k = "ping" THEN "pong" ELSE "close", d |-> Head(c.inq).d])]}
  ELSE {}

\* A callback begins.
Begin(c, k, d) ==
  IF k = "init" THEN IF c.ph = "up" THEN {[c EXCEPT !.ph = "cb", !.cur = c.init, !.curk = k]} ELSE {}
  ELSE IF k \in {"info", "sys"}
       THEN IF c.ph = "idle" /\ c.infq # <<>> /\ Head(c.infq).k = k /\ Head(c.infq).d = d
            THEN {[c EXCEPT !.ph = "cb", !.cur = Head(c.infq).x, !.curk = k, !.infq = Tail(@)]} ELSE {}
       ELSE IF c.ph = (IF Answered(k) THEN "replied" ELSE "idle") /\ c.inq # <<>> /\ Head(c.inq).k = k /\ Head(c.inq).d = d
            THEN {[c EXCEPT !.ph = "cb", !.cur = Head(c.inq).x, !.curk = k, !.inq = Tail(@), !.closing = (k = "close")]}
            ELSE {}

Gone(c) == c.ph \in {"down", "denied"}
Step(c, e) ==
  CASE e.o = "conn" /\ c.ph = "none" -> {[c EXCEPT !.ph = IF e.deny THEN "denied" ELSE "up", !.init = e.init, !.onclose = e.onclose, !.trap = e.trap]}
    \* a client that does not complete its handshake is let go, but not before its time
    [] e.o = "hs" /\ c.ph = "none" /\ e.dt >= e.hs - 20 -> {[c EXCEPT !.ph = "denied"]}
    [] e.o = "server" /\ c.ph = "none" /\ e.alive -> {c}
    [] e.o = "cs" -> {[c EXCEPT !.inq = Append(@, [k |-> e.k, d |-> e.d, x |-> IF e.k = "close" THEN c.onclose ELSE e.x])]}
    [] e.o = "sinfo" -> {IF Gone(c) THEN c ELSE [c EXCEPT !.infq = Append(@, [k |-> "info", d |-> e.d, x |-> e.x])]}
    [] e.o = "sexit" ->
         {IF Gone(c) THEN c
          ELSE IF c.trap /\ e.r # "kill" THEN [c EXCEPT !.infq = Append(@, [k |-> "sys", d |-> e.r, x |-> Act0])]
          ELSE IF e.r = "normal" THEN c ELSE [c EXCEPT !.exits = @ \cup {e.r}]}
    [] e.o = "fin" -> {[c EXCEPT !.fin = TRUE]}
    [] e.o = "rst" -> {[c EXCEPT !.lossy = TRUE]}
    [] e.o = "cbb" -> Begin(c, e.k, e.d)
    [] e.o = "cbe" /\ c.ph = "cb" /\ ~c.cur.panic -> AfterCb(c)
    [] e.o = "term" /\ c.ph = "ending" /\ (c.rsn = e.r \/ (c.rsn = "any" /\ e.r # "normal")) -> {[c EXCEPT !.ph = "term", !.rsn = e.r]}
    [] e.o = "terme" /\ c.ph = "term" -> {[c EXCEPT !.ph = "ended"]}
    [] e.o = "down" ->
         (IF c.ph = "ended" /\ c.rsn = e.r THEN {[c EXCEPT !.ph = "down"]} ELSE {})
         \cup (IF c.ph = "cb" /\ c.cur.panic /\ e.r = "c:panic" THEN {[c EXCEPT !.ph = "down"]} ELSE {})
         \cup (IF ~Gone(c) /\ c.ph # "none" /\ e.r \in c.exits THEN {[c EXCEPT !.ph = "down", !.rsn = "killed"]} ELSE {})
    [] e.o = "cr" /\ c.out # <<>> /\ Head(c.out) = [k |-> e.k, d |-> e.d] -> {[c EXCEPT !.out = Tail(@)]}
    \* the connection of a live handler stays
    [] e.o = "ceof" /\ (Gone(c) \/ c.lossy \/ c.ph = "ended" \/ c.exits # {} \/ (c.ph = "cb" /\ c.cur.panic)) -> {[c EXCEPT !.eof = TRUE]}
    [] OTHER -> {}

\* The connection fails.
Fail(c) ==
  (IF c.ph \in {"idle", "replied"} /\ (c.lossy \/ (c.ph = "idle" /\ c.fin /\ c.inq = <<>>))
   THEN {[c EXCEPT !.ph = "ending", !.rsn = "any"]} ELSE {})
  \cup (IF c.ph = "idle" /\ c.inq # <<>> /\ Head(c.inq).k = "bad" THEN {[c EXCEPT !.ph = "ending", !.rsn = Head(c.inq).d, !.inq = Tail(@)]} ELSE {})
\* Commands can fail half way when the client has gone.
FailSend(c) == IF c.lossy /\ c.ph = "ending" /\ c.rsn = "normal" /\ c.cur.err = "" THEN {[c EXCEPT !.rsn = "any"]} ELSE {}
Silent(c) == Reply(c) \cup Fail(c) \cup FailSend(c)

\* At the end of the recording: all has been seen, or the connection has ended.
EndOk(c) ==
  \/ c.ph = "denied" /\ c.eof
  \/ c.ph = "idle" /\ c.inq = <<>> /\ c.infq = <<>> /\ c.out = <<>> /\ ~c.fin /\ ~c.lossy
  \* (what was still on its way to a handler that ends can take answers with it)
  \/ c.ph = "down" /\ c.eof /\ (c.out = <<>> \/ c.lossy \/ c.inq # <<>> \/ c.rsn = "killed")
=============================================================================
