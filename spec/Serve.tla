-------------------------------- MODULE Serve --------------------------------
(***************************************************************************)
(* `Server::serve` with an initialized service: the two directions of the  *)
(* transport, the concurrency limit, and the end of the session.           *)
(*                                                                         *)
(* A step is one event of the environment (a message arrives, a handler    *)
(* may finish, the client replies, the write side stalls, recovers or      *)
(* fails, the input ends) followed by the server coming to rest.  What the *)
(* server does until then is computed by Pump: it is confluent, so the     *)
(* order of internal steps does not matter.                                *)
(*                                                                         *)
(* Event fields: `starts` handlers started, in order; `outs` what is       *)
(* written, as [t, r] pairs in order of completion; `ret` serve returns;   *)
(* `n` handlers running afterwards.  `ss`, `so`, `sr`: properties these    *)
(* observations belong to.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
  C,        \* concurrency limit
  M,        \* messages in flight
  Q,        \* length of the queue of messages not started yet
  Kinds,    \* subset of {"req", "note", "ask", "tell"}: a request, a notification, a request
            \* whose handler asks the client something, a notification whose handler sends
            \* the client more than the transport can hold
  Features, \* subset of {"cancel", "exit", "block", "break", "bad", "push", "pre", "readerr", "fill", "quit"}
  Patience  \* 0, or (in simulations) how seldom the session comes to its end

Tokens == 1..M

VARIABLES
  tk,     \* Tokens -> kind, or "free"
  run,    \* tokens whose handlers are running
  queue,  \* messages received and not started: [k, t]
  pre,    \* queued tokens whose handlers will not have to wait
  dead,   \* queued tokens cancelled by `exit`
  life,   \* "init", "exit"
  inp,    \* "open", "closed" (nothing is read any more)
  w,      \* write side: "open", "blocked", "broken"
  held,   \* the last message arrived together with the next one
  ret,    \* serve has returned
  ev

view == <<tk, run, queue, pre, dead, life, inp, w, held, ret>>
vars == <<tk, run, queue, pre, dead, life, inp, w, held, ret, ev>>

\* Simulations would be over soon otherwise.
Seldom == IF Patience = 0 THEN TRUE ELSE ret = FALSE /\ RandomElement(1..Patience) = 1

Init ==
  /\ tk = [t \in Tokens |-> "free"] /\ run = {} /\ queue = <<>> /\ pre = {} /\ dead = {}
  /\ life = "init" /\ inp = "open" /\ w = "open" /\ held = FALSE /\ ret = FALSE
  /\ ev = [a |-> "start"]

-----------------------------------------------------------------------------
(* Whatever happens without further input, as a function of a record
   [tk, run, queue, pre, dead, starts, outs].                               *)

Out(t, r) == [t |-> t, r |-> r]

\* Requests owe a response, notifications do not.
Answered(s, t, r) == CASE s.tk[t] = "note" -> s.outs
                       \* nothing is claimed about messages to the client once exited
                       [] s.tk[t] = "tell" -> Append(s.outs, Out(t, IF life' = "exit" THEN "tell?" ELSE "tell"))
                       [] OTHER -> Append(s.outs, Out(t, r))

\* Token t is over: cancellations still queued for it have lost their target.
Forget(s, t) ==
  [s EXCEPT !.tk[t] = "free", !.run = @ \ {t}, !.pre = @ \ {t}, !.dead = @ \ {t},
            !.queue = [i \in 1..Len(s.queue) |-> IF s.queue[i].k = "cancel" /\ s.queue[i].t = t
                                                 THEN [k |-> "cancel", t |-> 0] ELSE s.queue[i]]]

Finish(s, t, r) == Forget([s EXCEPT !.outs = Answered(s, t, r)], t)

RECURSIVE Pump(_)
Pump(s) ==
  IF Cardinality(s.run) >= C \/ s.queue = <<>> THEN s
  ELSE LET h == Head(s.queue)
           p == [s EXCEPT !.queue = Tail(@)]
       IN Pump(
            CASE h.k = "cancel" -> IF h.t \in p.run THEN Finish(p, h.t, "e-32800") ELSE p
              [] h.k # "cancel" /\ h.t \in p.dead -> Finish(p, h.t, "e-32800")
              [] OTHER ->
                   LET q == [p EXCEPT !.starts = Append(@, h.t), !.run = @ \cup {h.t}] IN
                   IF h.t \in p.pre THEN Finish(q, h.t, "ok")
                   ELSE IF h.k = "tell" THEN (IF w' = "open" THEN Finish(q, h.t, "ok") ELSE q)
                   ELSE IF h.k = "ask" THEN [q EXCEPT !.outs = Append(@, Out(h.t, "ask"))]
                   ELSE q)

RECURSIVE FinishTells(_)
FinishTells(s) ==
  LET S == {t \in s.run : s.tk[t] = "tell"} IN
  IF S = {} THEN s ELSE FinishTells(Finish(s, CHOOSE t \in S : \A u \in S : t <= u, "ok"))

Now == [tk |-> tk, run |-> run, queue |-> queue, pre |-> pre, dead |-> dead, starts |-> <<>>, outs |-> <<>>]

\* The session is over once nothing is read any more and everything received is done.
Over(s) == inp' = "closed" /\ s.run = {} /\ s.queue = <<>> /\ w' = "open"

\* How many handlers are held up by the write side; they may get on with it at any time.
TellsIn(r, k) == Cardinality({t \in r : k[t] = "tell"})

Settle(s0, a, k, t, r, more, ss, so, sr) ==
  LET s == Pump(s0) IN
  /\ tk' = s.tk /\ run' = s.run /\ queue' = s.queue /\ pre' = s.pre /\ dead' = s.dead
  /\ held' = more
  /\ ret' = Over(s)
  /\ ev' = [a |-> a, k |-> k, t |-> t, r |-> r, more |-> more, starts |-> s.starts, outs |-> s.outs,
            ret |-> ret', n |-> Cardinality(s.run), tells |-> TellsIn(s.run, s.tk), w |-> w', ss |-> ss, so |-> so, sr |-> sr,
            sc |-> {"P17"} \cup ss \cup so]

-----------------------------------------------------------------------------
FreeTokens == {t \in Tokens : tk[t] = "free"}
NewToken   == CHOOSE t \in FreeTokens : \A u \in FreeTokens : t <= u
Live       == ~ret /\ w # "broken"
Reading    == Live /\ inp = "open" /\ life = "init"
Stuck      == w = "blocked" /\ TellsIn(run, tk) > 0
Full       == Cardinality(run) = C      \* every slot is occupied

\* P18 is about what happens while slots are occupied.
Busy(S) == IF Full THEN S \cup {"P18"} ELSE S

Arrive(k, more) ==
  /\ Reading /\ FreeTokens # {} /\ Len(queue) < Q /\ ~Stuck
  /\ (k = "ask") => w = "open"
  /\ UNCHANGED <<life, inp, w>>
  /\ Settle([Now EXCEPT !.tk[NewToken] = k, !.queue = Append(@, [k |-> k, t |-> NewToken])],
            "arrive", k, NewToken, "-", more, {"P16"}, {"P15", "P18"}, {"P17"})

Cancel(t) ==
  /\ Reading /\ ~held /\ w = "open" /\ "cancel" \in Features /\ Len(queue) < Q
  /\ tk[t] \in {"req", "ask"}
  /\ ~\E i \in 1..Len(queue) : queue[i].k = "cancel" /\ queue[i].t = t
  /\ UNCHANGED <<life, inp, w>>
  /\ Settle([Now EXCEPT !.queue = Append(@, [k |-> "cancel", t |-> t])],
            "cancel", "-", t, "-", FALSE, {"P16"}, {"P06", "P05"}, {"P17"})

\* A handler gets what it waits for; a queued one will not have to wait.
Release(t, r) ==
  /\ Live /\ ~held /\ tk[t] \in {"req", "note"} /\ ~Stuck
  /\ IF t \in run
     THEN /\ r = "err" => tk[t] = "req"
          /\ UNCHANGED <<life, inp, w>>
          /\ Settle(Finish(Now, t, r), "rel", "-", t, r, FALSE, {"P16"}, {"P15", "P05", "P16"}, {"P17"})
     ELSE /\ "pre" \in Features /\ r = "ok" /\ t \notin pre \cup dead
          /\ UNCHANGED <<life, inp, w>>
          /\ Settle([Now EXCEPT !.pre = @ \cup {t}], "rel", "-", t, r, FALSE, {"P16"}, {"P15"}, {"P17"})

\* The client replies to the request that handler t is waiting for.
Reply(t, r) ==
  /\ Reading /\ ~held /\ w = "open" /\ t \in run /\ tk[t] = "ask"
  /\ UNCHANGED <<life, inp, w>>
  /\ Settle(Finish(Now, t, "ok"), "reply", "-", t, r, FALSE, {"P16", "P18"}, {"P18", "P09", "P15"}, {"P17"})

\* A response nobody waits for
Stray ==
  /\ Reading /\ ~held /\ "push" \in Features
  /\ UNCHANGED <<life, inp, w>>
  /\ Settle(Now, "stray", "-", 0, "-", FALSE, {"P16"}, {"P09"}, {"P17"})

\* Dozens of further messages arrive while every slot is occupied.  (They need no
\* answer and no slot for long, so nothing else is to be seen of them.)
Fill ==
  /\ Reading /\ ~held /\ "fill" \in Features /\ Full /\ ~Stuck
  /\ UNCHANGED <<life, inp, w>>
  /\ Settle(Now, "fill", "-", 0, "-", FALSE, {"P16"}, {"P15", "P18"}, {"P17"})

\* The server tells the client something on its own account.
Push ==
  /\ Live /\ ~held /\ "push" \in Features /\ ~(inp = "closed" /\ run = {}) /\ w = "open"
  /\ UNCHANGED <<life, inp, w>>
  /\ Settle([Now EXCEPT !.outs = IF life = "exit" THEN <<>> ELSE <<Out(0, "push")>>],
            "push", "-", 0, "-", FALSE, {"P16"}, Busy({"P12", "P15"}) \cup (IF life = "exit" THEN {"P04", "P11"} ELSE {}), {"P17"})

Bad(more) ==
  /\ Reading /\ "bad" \in Features /\ ~Stuck
  /\ UNCHANGED <<life, inp, w>>
  /\ Settle([Now EXCEPT !.outs = <<Out(0, "e-32700")>>], "bad", "-", 0, "-", more, {"P16"}, {"P14"}, {"P17"})

Requests(S) == {t \in S : tk[t] \in {"req", "ask"}}
Queued == {t \in Tokens : \E i \in 1..Len(queue) : queue[i].k # "cancel" /\ queue[i].t = t}

RECURSIVE FinishAll(_, _)
FinishAll(s, S) ==
  IF S = {} THEN s
  ELSE LET t == CHOOSE x \in S : \A y \in S : x <= y IN FinishAll(Finish(s, t, "e-32800"), S \ {t})

Exit ==
  /\ Reading /\ ~held /\ (w = "open" \/ Stuck) /\ "exit" \in Features /\ Seldom
  /\ life' = "exit" /\ UNCHANGED <<inp, w>>
  /\ Settle(FinishAll([Now EXCEPT !.dead = Requests(Queued), !.pre = @ \ Requests(Queued)], Requests(run)),
            "exit", "-", 0, "-", FALSE, {"P04", "P16"}, Busy({"P04"}), {"P17"})

\* A message after `exit` ends the session.
After ==
  /\ Live /\ ~held /\ inp = "open" /\ life = "exit" /\ w = "open"
  /\ inp' = "closed" /\ UNCHANGED <<life, w>>
  /\ Settle(Now, "after", "-", 0, "-", FALSE, {"P04"}, {"P04"}, {"P17", "P04"})

\* The input ends (or fails).  Handlers that wait for the client would wait forever.
Eof(e) ==
  /\ Live /\ ~held /\ inp = "open" /\ Seldom
  /\ \A t \in Tokens : tk[t] = "ask" => t \in dead
  /\ e = "readerr" => "readerr" \in Features /\ life = "init"
  /\ inp' = "closed" /\ UNCHANGED <<life, w>>
  /\ Settle(Now, e, "-", 0, "-", FALSE, {"P16"}, {"P15", "P17"}, {"P17"})

Block ==
  /\ Live /\ ~held /\ w = "open" /\ "block" \in Features
  /\ \A t \in Tokens : tk[t] # "ask"
  \* what is sent to the client after `exit` goes nowhere: whether it can be held up is left open
  /\ life = "exit" => \A t \in Tokens : tk[t] # "tell"
  /\ w' = "blocked" /\ UNCHANGED <<life, inp>>
  /\ Settle(Now, "block", "-", 0, "-", FALSE, {"P16"}, {"P15"}, {"P17"})

Unblock ==
  /\ Live /\ ~held /\ w = "blocked"
  /\ w' = "open" /\ UNCHANGED <<life, inp>>
  /\ Settle(FinishTells(Now), "unblock", "-", 0, "-", FALSE, {"P16", "P15"}, {"P15", "P18", "P12"}, {"P17"})

(* Writing fails.  Nothing is claimed about what happens then, except that   *)
(* no event causes a panic, and that serve returns when the input ends and   *)
(* the handlers finish.                                                      *)
Break ==
  /\ Live /\ ~held /\ "break" \in Features /\ Seldom
  /\ \A t \in Tokens : tk[t] # "ask"
  /\ w' = "broken" /\ UNCHANGED <<life, inp>>
  /\ UNCHANGED <<tk, run, queue, pre, dead, held, ret>>
  /\ ev' = [a |-> "break", k |-> "-", t |-> 0, r |-> "-", more |-> FALSE, w |-> "broken", ret |-> FALSE, sc |-> {"P17"}]

Broken(a, k) ==
  /\ w = "broken" /\ ~ret
  /\ CASE a = "arrive" -> inp = "open"
       [] a = "bad"    -> inp = "open"
       [] a = "push"   -> TRUE
       [] a = "drain"  -> TRUE
  /\ ret' = (a = "drain")
  /\ UNCHANGED <<tk, run, queue, pre, dead, life, inp, w, held>>
  /\ ev' = [a |-> a, k |-> k, t |-> 0, r |-> "-", more |-> FALSE, w |-> "broken", ret |-> ret', sc |-> {"P17"}]

\* The future of `serve` is dropped, and the handlers with it.
Quit ==
  /\ ~ret /\ ~held /\ "quit" \in Features /\ Seldom
  /\ tk' = [t \in Tokens |-> "free"] /\ run' = {} /\ queue' = <<>> /\ pre' = {} /\ dead' = {}
  /\ inp' = "closed" /\ ret' = TRUE /\ UNCHANGED <<life, w, held>>
  /\ ev' = [a |-> "quit", k |-> "-", t |-> 0, r |-> "-", more |-> FALSE, w |-> w, ret |-> TRUE, sc |-> {"P12", "P17"}]

\* However serve has ended: calls on the client return at once from then on.
Late(k) ==
  /\ ret /\ "quit" \in Features /\ k # "tell" /\ (Patience # 0 => ev.a # "late")
  /\ UNCHANGED <<tk, run, queue, pre, dead, life, inp, w, held, ret>>
  /\ ev' = [a |-> "late", k |-> k, t |-> 0, r |-> "-", more |-> FALSE, w |-> w, ret |-> TRUE, sc |-> {"P12"}]

Next ==
  \/ Quit
  \/ \E k \in Kinds : Late(k)
  \/ \E k \in Kinds, m \in BOOLEAN : Arrive(k, m)
  \/ \E m \in BOOLEAN : Bad(m)
  \/ \E t \in Tokens : Cancel(t) \/ \E r \in {"ok", "err"} : Release(t, r) \/ Reply(t, r)
  \/ Stray \/ Fill \/ Push \/ Exit \/ After
  \/ \E e \in {"eof", "readerr"} : Eof(e)
  \/ Block \/ Unblock \/ Break
  \/ \E k \in Kinds \ {"ask"} : Broken("arrive", k)
  \/ Broken("bad", "-") \/ Broken("push", "-") \/ Broken("drain", "-")

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* P16
Limit  == Cardinality(run) <= C
NoIdle == queue # <<>> => Cardinality(run) = C    \* no capacity is wasted
Fifo   == \A i, j \in 1..Len(queue) : (i < j /\ queue[i].k # "cancel" /\ queue[j].k = "cancel" /\ queue[j].t # 0)
                                        => queue[j].t \in Tokens
\* P17: serve does not return before everything is done, and does return then
Return == ret /\ w # "broken" => (inp = "closed" /\ run = {} /\ queue = <<>>)
Returns == (inp = "closed" /\ run = {} /\ queue = <<>> /\ w = "open") => ret
\* P15/P05: every request that ends is answered once
Answers == [][ev'.a # "quit" => \A t \in Tokens : (tk[t] \in {"req", "ask"} /\ tk'[t] = "free")
                => Cardinality({i \in 1..Len(ev'.outs) : ev'.outs[i].t = t /\ ev'.outs[i].r # "ask"}) = 1]_vars
\* P04: nothing with an id runs after exit
Exited == life = "exit" => \A t \in run : tk[t] \in {"note", "tell"}
\* P12: nothing is left behind by whatever has ended
Left == ret /\ w # "broken" => \A t \in Tokens : tk[t] = "free"
\* P18: whoever waits for the client is resumed by its reply, whatever the slots do
Replied == [][(ev'.a = "reply") => ev'.t \notin run']_vars
Consistent == \A t \in Tokens : (tk[t] # "free") <=> (t \in run \cup Queued)

\* Sets and records as tuples, because ToString lists their elements in no fixed order.
Q2T(q) == [i \in 1..Len(q) |-> <<q[i].k, q[i].t>>]
In(S) == [t \in Tokens |-> t \in S]
Emit == PrintT(<<"EDGE", ToJson([
          f |-> ToString(<<tk, In(run), Q2T(queue), In(pre), In(dead), life, inp, w, held, ret>>),
          e |-> ev',
          t |-> ToString(<<tk', In(run'), Q2T(queue'), In(pre'), In(dead'), life', inp', w', held', ret'>>)])>>)

\* Used as an invariant in simulation mode: prints the behaviour instead of the graph.
EmitSim == PrintT(<<"SIM", ToJson([l |-> TLCGet("level"), e |-> ev])>>)
=============================================================================
