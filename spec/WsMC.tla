-------------------------------- MODULE WsMC --------------------------------
(* Design check: what the interface of Ws allows, for all clients and messages within bounds, keeps the promises. *)
EXTENDS Ws

CONSTANTS MaxIn, Depth

VARIABLES c, n, m, sent, handled, infs, infd, got, said, terms, late, downs
vars == <<c, n, m, sent, handled, infs, infd, got, said, terms, late, downs>>
(* sent, handled: frames; infs, infd: messages; said: what the handler sent (and what answers it); got: what the client received;
   terms: terminate callbacks; late: callbacks after one. *)
Acts == {Act0, [Act0 EXCEPT !.cmds = <<[k |-> "text", d |-> "r"]>>], [Act0 EXCEPT !.err = "c:x"], [Act0 EXCEPT !.panic = TRUE],
         [Act0 EXCEPT !.cmds = <<[k |-> "text", d |-> "r"], [k |-> "c", d |-> "1000:"], [k |-> "text", d |-> "s"]>>]}
Ids == <<"1", "2", "3", "4", "5">>
Init == /\ c = InitC /\ n = 0 /\ m = 0 /\ sent = <<>> /\ handled = <<>> /\ infs = <<>> /\ infd = <<>> /\ got = <<>> /\ said = <<>>
        /\ terms = 0 /\ late = 0 /\ downs = <<>>
Do(e) == c' \in Step(c, e)
Conn == \E a \in {x \in Acts : x = Act0 \/ x.err # "" \/ x.panic \/ Len(x.cmds) = 3}, o \in {Act0, [Act0 EXCEPT !.err = "c:x"]}, tr \in BOOLEAN, d \in BOOLEAN :
          (d => a = Act0 /\ o = Act0 /\ ~tr) /\ Do([o |-> "conn", deny |-> d, init |-> a, onclose |-> o, trap |-> tr])
          /\ UNCHANGED <<n, m, sent, handled, infs, infd, got, said, terms, late, downs>>
Client == /\ c.ph # "none" /\ n < MaxIn /\ ~c.fin /\ n' = n + 1
          /\ \E k \in {"text", "ping", "close", "bad"}, a \in Acts :
               LET d == IF k = "bad" THEN "c:unknown" ELSE Ids[n'] IN
               /\ (k # "text" => a = Act0)
               /\ Do([o |-> "cs", k |-> k, d |-> d, x |-> a])
               /\ sent' = Append(sent, <<k, d>>)
          /\ UNCHANGED <<m, handled, infs, infd, got, said, terms, late, downs>>
Leave == /\ c.ph # "none" /\ ~c.fin /\ ~c.lossy /\ \E o \in {"fin", "rst"} : Do([o |-> o])
         /\ UNCHANGED <<n, m, sent, handled, infs, infd, got, said, terms, late, downs>>
Message == /\ c.ph # "none" /\ m < Depth /\ m' = m + 1
           /\ \/ \E a \in Acts : Do([o |-> "sinfo", d |-> Ids[m'], x |-> a]) /\ infs' = (IF Gone(c) THEN infs ELSE Append(infs, Ids[m']))
              \/ \E r \in {"kill", "c:y", "normal"} : Do([o |-> "sexit", r |-> r]) /\ UNCHANGED infs
           /\ UNCHANGED <<n, sent, handled, infd, got, said, terms, late, downs>>
Callback ==
  \E k \in {"init", "text", "ping", "close", "info", "sys"} :
    \E d \in {""} \cup (IF c.inq # <<>> THEN {Head(c.inq).d} ELSE {}) \cup (IF c.infq # <<>> THEN {Head(c.infq).d} ELSE {}) :
      /\ Do([o |-> "cbb", k |-> k, d |-> d])
      /\ handled' = (IF k \in {"text", "ping", "close"} THEN Append(handled, <<k, d>>) ELSE handled)
      /\ infd' = (IF k = "info" THEN Append(infd, d) ELSE infd)
      /\ late' = late + (IF terms > 0 THEN 1 ELSE 0)
      /\ UNCHANGED <<n, m, sent, infs, got, said, terms, downs>>
Return == Do([o |-> "cbe"]) /\ said' = said \o SubSeq(c'.out, Len(c.out) + 1, Len(c'.out)) /\ UNCHANGED <<n, m, sent, handled, infs, infd, got, terms, late, downs>>
Term == \E r \in {"normal", "c:x", "c:y", "c:unknown", "c:connection_closed"} : Do([o |-> "term", r |-> r])
        /\ terms' = terms + 1 /\ UNCHANGED <<n, m, sent, handled, infs, infd, got, said, late, downs>>
Terme == Do([o |-> "terme"]) /\ UNCHANGED <<n, m, sent, handled, infs, infd, got, said, terms, late, downs>>
Down == \E r \in {"normal", "c:x", "c:y", "c:unknown", "c:connection_closed", "c:panic", "kill"} : Do([o |-> "down", r |-> r])
        /\ downs' = Append(downs, r) /\ UNCHANGED <<n, m, sent, handled, infs, infd, got, said, terms, late>>
Receive == /\ c.out # <<>> /\ Do([o |-> "cr", k |-> Head(c.out).k, d |-> Head(c.out).d])
           /\ got' = Append(got, Head(c.out)) /\ UNCHANGED <<n, m, sent, handled, infs, infd, said, terms, late, downs>>
Eof == ~c.eof /\ Do([o |-> "ceof"]) /\ UNCHANGED <<n, m, sent, handled, infs, infd, got, said, terms, late, downs>>
Quiet == c' \in Silent(c) /\ said' = said \o SubSeq(c'.out, Len(c.out) + 1, Len(c'.out))
         /\ UNCHANGED <<n, m, sent, handled, infs, infd, got, terms, late, downs>>
Next == Conn \/ Client \/ Leave \/ Message \/ Callback \/ Return \/ Term \/ Terme \/ Down \/ Receive \/ Eof \/ Quiet
Spec == Init /\ [][Next]_vars

Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]
Once == terms <= 1 /\ Len(downs) <= 1
NoneAfter == late = 0
\* Frames and messages are handled in the order they were sent, answers are received in the order they were given.
InOrder == Prefix(handled, sent) /\ Prefix(infd, infs) /\ Prefix(got, said)
\* A process that was not killed and did not panic was terminated, with the reason it exits with.
ReasonOk == downs # <<>> /\ terms = 0 => downs[1] \in c.exits \cup {"c:panic"}
EndReason == downs # <<>> /\ terms = 1 /\ c.exits = {} => downs[1] = c.rsn
\* Every ping the handler has seen was answered with its data, every close with a close.
AnsweredOk == \A i \in DOMAIN handled : handled[i][1] = "ping" => \E j \in DOMAIN said : said[j] = [k |-> "pong", d |-> handled[i][2]]
\* Nothing is said after a close.
Silence == \A i \in DOMAIN said : said[i].k = "close" => i = Len(said)
\* At rest nothing is lost.
Accounted == EndOk(c) /\ c.ph = "idle" => handled = sent /\ infd = infs /\ got = said
=============================================================================
