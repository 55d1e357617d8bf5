-------------------------------- MODULE Keep --------------------------------
(***************************************************************************)
(* What a server holds on to.  Every message that a server handles makes   *)
(* it remember something for a while: the handler and the means to cancel  *)
(* it, who waits for which response of the client, the bytes of a message  *)
(* that is incomplete.  All of it is given back in the end, whichever way  *)
(* things end.                                                             *)
(*                                                                         *)
(* Each transition here is part of a cycle of the graph.  The driver goes  *)
(* round it thousands of times, always with other ids, and compares how    *)
(* much memory is in use whenever the same state of this specification is  *)
(* reached again.                                                          *)
(*                                                                         *)
(*   open, init, down  a server is started, initialized, shut down         *)
(*   exit              it exits, and its input ends                        *)
(*   eof               its input ends                                      *)
(*   drop              the future of its `serve` is dropped                *)
(*   exitfull, dropfull  the same while requests wait for a free slot      *)
(*   fail              an attempt to initialize it fails                   *)
(*   req, ask          a request arrives whose handler waits for           *)
(*                     permission to finish, or for the client             *)
(*   finish, reply     the handler may finish, or the client replies       *)
(*   cancelreq, cancelask   the request is cancelled; the client has yet   *)
(*                     to reply to the call that this abandons             *)
(*   late              the client replies to an abandoned call             *)
(*   begin, complete   the parts of a message                              *)
(*   once              something that is over at once (of kind `k`)        *)
(***************************************************************************)
EXTENDS Naturals, TLC, Json

CONSTANTS MaxFlight, MaxOrphans

VARIABLES
  life,    \* "off", "new", "up", "down"
  req, ask,\* requests in flight
  orphan,  \* abandoned calls the client has not replied to
  part,    \* a message has been received in part
  kept,    \* what is remembered
  ev
vars == <<life, req, ask, orphan, part, kept, ev>>
view == <<life, req, ask, orphan, part, kept>>

Nothing == [handlers |-> 0, handles |-> 0, waiters |-> 0, pieces |-> 0]
Init == life = "off" /\ req = 0 /\ ask = 0 /\ orphan = 0 /\ part = FALSE /\ kept = Nothing /\ ev = [a |-> "start"]

Log(a, k) == ev' = [a |-> a, k |-> k, life |-> life, req |-> req, ask |-> ask, sc |-> {"P24"}]
Same == UNCHANGED <<life, req, ask, orphan, part, kept>>
Reads == life # "off" /\ ~part

Open == life = "off" /\ life' = "new" /\ UNCHANGED <<req, ask, orphan, part, kept>> /\ Log("open", "-")
Initialize == Reads /\ life = "new" /\ life' = "up" /\ UNCHANGED <<req, ask, orphan, part, kept>> /\ Log("init", "-")
Down == Reads /\ life = "up" /\ life' = "down" /\ UNCHANGED <<req, ask, orphan, part, kept>> /\ Log("down", "-")

End(a) ==
  /\ life # "off"
  /\ a \in {"exit", "exitfull", "dropfull"} => ~part
  /\ a = "eof" => req + ask = 0
  /\ life' = "off" /\ req' = 0 /\ ask' = 0 /\ orphan' = 0 /\ part' = FALSE /\ kept' = Nothing
  /\ Log(a, "-")

Accept(k) ==
  /\ Reads /\ life = "up" /\ req + ask < MaxFlight
  /\ IF k = "req" THEN req' = req + 1 /\ ask' = ask ELSE ask' = ask + 1 /\ req' = req
  /\ kept' = [kept EXCEPT !.handlers = @ + 1, !.handles = @ + 1, !.waiters = IF k = "ask" THEN @ + 1 ELSE @]
  /\ UNCHANGED <<life, orphan, part>>
  /\ Log(k, "-")

\* The handler is released by the driver, which needs no input
Finish ==
  /\ req > 0 /\ req' = req - 1
  /\ kept' = [kept EXCEPT !.handlers = @ - 1, !.handles = @ - 1]
  /\ UNCHANGED <<life, ask, orphan, part>> /\ Log("finish", "-")

Reply(k) ==
  /\ Reads /\ ask > 0 /\ ask' = ask - 1
  /\ kept' = [kept EXCEPT !.handlers = @ - 1, !.handles = @ - 1, !.waiters = @ - 1]
  /\ UNCHANGED <<life, req, orphan, part>> /\ Log("reply", k)

CancelReq ==
  /\ Reads /\ req > 0 /\ req' = req - 1
  /\ kept' = [kept EXCEPT !.handlers = @ - 1, !.handles = @ - 1]
  /\ UNCHANGED <<life, ask, orphan, part>> /\ Log("cancelreq", "-")

CancelAsk ==
  /\ Reads /\ ask > 0 /\ orphan < MaxOrphans
  /\ ask' = ask - 1 /\ orphan' = orphan + 1
  /\ kept' = [kept EXCEPT !.handlers = @ - 1, !.handles = @ - 1]
  /\ UNCHANGED <<life, req, part>> /\ Log("cancelask", "-")

Late ==
  /\ Reads /\ orphan > 0 /\ orphan' = orphan - 1
  /\ kept' = [kept EXCEPT !.waiters = @ - 1]
  /\ UNCHANGED <<life, req, ask, part>> /\ Log("late", "-")

Begin ==
  /\ Reads /\ part' = TRUE /\ kept' = [kept EXCEPT !.pieces = @ + 1]
  /\ UNCHANGED <<life, req, ask, orphan>> /\ Log("begin", "-")
Complete ==
  /\ life # "off" /\ part /\ part' = FALSE /\ kept' = [kept EXCEPT !.pieces = @ - 1]
  /\ UNCHANGED <<life, req, ask, orphan>> /\ Log("complete", "-")

\* A request that is answered at once (in whichever way), a request with an id in use, a
\* notification, input that cannot be understood, messages of the server's own accord, ...
Kinds == {"ok", "err", "note", "builtin", "unknown", "unknown-note", "params", "params-note", "dollar", "dollar-note",
          "cancel", "cancel-params", "stray", "stray-null", "init", "json", "utf8", "rpc", "length", "charset", "junk",
          "empty", "ctype", "long"}
Once(k) == Reads /\ Same /\ Log("once", k)
Dup == Reads /\ life = "up" /\ req > 0 /\ Same /\ Log("dup", "-")
\* These need no input
Own(k) == life # "off" /\ Same /\ Log("own", k)
Fail == Reads /\ life = "new" /\ Same /\ Log("fail", "-")

Next ==
  \/ Open \/ Initialize \/ Down \/ Finish \/ CancelReq \/ CancelAsk \/ Late \/ Begin \/ Complete \/ Dup \/ Fail
  \/ \E a \in {"exit", "eof", "drop", "exitfull", "dropfull"} : End(a)
  \/ \E k \in {"req", "ask"} : Accept(k)
  \/ \E k \in {"ok", "err"} : Reply(k)
  \/ \E k \in Kinds \ (IF life = "new" THEN {"init"} ELSE {}) : Once(k)
  \/ \E k \in {"tell", "progress"} : Own(k)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* P24: nothing is remembered but what has not come to its end
Exact == kept = [handlers |-> req + ask, handles |-> req + ask, waiters |-> ask + orphan, pieces |-> IF part THEN 1 ELSE 0]
AtRest == req + ask + orphan = 0 /\ ~part => kept = Nothing
Off == life = "off" => kept = Nothing /\ req + ask + orphan = 0 /\ ~part

Key == ToString(<<life, req, ask, orphan, part>>)
Emit == PrintT(<<"EDGE", ToJson([f |-> Key, e |-> ev', t |-> ToString(<<life', req', ask', orphan', part'>>)])>>)
=============================================================================
