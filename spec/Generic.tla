------------------------------- MODULE Generic -------------------------------
(***************************************************************************)
(* `Server::serve` with a service and a loopback of someone else: what it  *)
(* owes any `tower::Service` and any `Loopback`.                           *)
(*                                                                         *)
(*   - a request is passed to the service, in order, when it is ready;     *)
(*     while it is not, the request waits and nothing is lost;             *)
(*   - what the returned future yields is written: a response, or nothing  *)
(*     (no response, or an error);                                         *)
(*   - responses are passed, in order, to the loopback's sink;             *)
(*   - what the loopback's stream yields is written, in order; its end     *)
(*     changes nothing else;                                               *)
(*   - once the service or the sink fails, nothing more is read, and serve *)
(*     returns when the calls in progress are finished.                    *)
(*                                                                         *)
(* A step is an event of the environment, after which the server comes to  *)
(* rest, except that several messages of the stream may come at once with  *)
(* the next event (`held`).                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS M,   \* calls in progress (at most the concurrency limit)
          Q,   \* messages waiting to be taken in
          Patience  \* 0, or (in simulations) how seldom the steps happen after which little can follow

Tokens == 1..M

VARIABLES
  run,    \* calls in progress
  pend,   \* messages waiting: [k, t]
  ready,  \* the service: "yes", "one" (for one call), "no", "err"
  sink,   \* the loopback's sink: "yes", "no", "err"
  strm,   \* the loopback's stream: "open", "ended"
  inp,    \* "open", "eof", "broke"
  held,   \* number of messages of the stream that have not been taken yet
  ret,    \* serve has returned
  ev

view == <<run, pend, ready, sink, strm, inp, held, ret>>
vars == <<run, pend, ready, sink, strm, inp, held, ret, ev>>

\* Simulations would be over soon otherwise.
Seldom == IF Patience = 0 THEN TRUE ELSE ret = FALSE /\ RandomElement(1..Patience) = 1

Init ==
  /\ run = {} /\ pend = <<>> /\ ready = "yes" /\ sink = "yes" /\ strm = "open"
  /\ inp = "open" /\ held = 0 /\ ret = FALSE /\ ev = [a |-> "start"]

RECURSIVE Pump(_)
Pump(s) ==
  IF s.pend = <<>> \/ s.inp = "broke" THEN s
  ELSE LET h == Head(s.pend)
           p == [s EXCEPT !.pend = Tail(@)]
       IN CASE h.k = "call" ->
                 (CASE s.ready = "no"  -> s
                    [] s.ready = "err" -> [s EXCEPT !.inp = "broke", !.pend = <<>>]
                    [] OTHER -> Pump([p EXCEPT !.run = @ \cup {h.t}, !.calls = Append(@, h.t),
                                               !.ready = IF @ = "one" THEN "no" ELSE @]))
            [] h.k = "resp" ->
                 (CASE s.sink = "no"  -> s
                    [] s.sink = "err" -> [s EXCEPT !.inp = "broke", !.pend = <<>>]
                    [] OTHER -> Pump([p EXCEPT !.dels = @ + 1]))
            [] OTHER -> Pump([p EXCEPT !.bads = @ + 1])

Now == [run |-> run, pend |-> pend, ready |-> ready, inp |-> inp, sink |-> sink, calls |-> <<>>, dels |-> 0, bads |-> 0]

\* `fin`: the call that finishes in this step, `n`: messages taken from the stream
Rest(s0, a, k, t, r, n) ==
  LET s == Pump(s0) IN
  /\ run' = s.run /\ pend' = s.pend /\ ready' = s.ready /\ inp' = s.inp /\ sink' = s.sink
  /\ held' = 0
  /\ ret' = (s.inp \in {"eof", "broke"} /\ s.pend = <<>> /\ s.run = {})
  /\ ev' = [a |-> a, k |-> k, t |-> t, r |-> r, calls |-> s.calls, dels |-> s.dels, bads |-> s.bads,
            n |-> held + n, waits |-> Len(s.pend), ret |-> ret', sc |-> {"P22"}]

Used == run \cup {pend[i].t : i \in DOMAIN pend}
FreeTokens == Tokens \ Used
NewToken == CHOOSE t \in FreeTokens : \A u \in FreeTokens : t <= u

Arrive(k) ==
  /\ ~ret /\ inp = "open" /\ Len(pend) < Q
  /\ k = "call" => FreeTokens # {}
  /\ LET t == IF k = "call" THEN NewToken ELSE 0 IN
     Rest([Now EXCEPT !.pend = Append(@, [k |-> k, t |-> t])], "arrive", k, t, "-", 0)
  /\ UNCHANGED strm

\* The service, or the sink, changes its mind.
Service(m) ==
  /\ ~ret /\ inp # "broke" /\ ready # "err" /\ m # ready
  /\ m = "err" => Seldom
  /\ Rest([Now EXCEPT !.ready = m], "service", "-", 0, m, 0)
  /\ UNCHANGED strm

Sink(m) ==
  /\ ~ret /\ inp # "broke" /\ sink # "err" /\ m # sink
  /\ m = "err" => Seldom
  /\ Rest([Now EXCEPT !.sink = m], "sink", "-", 0, m, 0)
  /\ UNCHANGED strm

\* A call finishes: with a response, without one, with an error.
Finish(t, r) ==
  /\ ~ret /\ t \in run
  /\ Rest([Now EXCEPT !.run = @ \ {t}], "finish", "-", t, r, 0)
  /\ UNCHANGED strm

Yield ==
  /\ ~ret /\ strm = "open"
  /\ Rest(Now, "yield", "-", 0, "-", 1)
  /\ UNCHANGED strm

\* The stream has one more message, and before the server looks, something else happens.
Stash ==
  /\ ~ret /\ strm = "open" /\ held < 2
  /\ held' = held + 1
  /\ ev' = [a |-> "stash", k |-> "-", t |-> 0, r |-> "-", calls |-> <<>>, dels |-> 0, bads |-> 0, n |-> 0,
            waits |-> 0, ret |-> FALSE, sc |-> {"P22"}]
  /\ UNCHANGED <<run, pend, ready, sink, strm, inp, ret>>

End ==
  /\ ~ret /\ strm = "open" /\ strm' = "ended" /\ Seldom
  /\ Rest(Now, "end", "-", 0, "-", 0)

Eof ==
  /\ ~ret /\ inp = "open" /\ Seldom
  /\ Rest([Now EXCEPT !.inp = "eof"], "eof", "-", 0, "-", 0)
  /\ UNCHANGED strm

Next ==
  \/ \E k \in {"call", "resp", "bad"} : Arrive(k)
  \/ \E m \in {"yes", "one", "no", "err"} : Service(m)
  \/ \E m \in {"yes", "no", "err"} : Sink(m)
  \/ \E t \in Tokens, r \in {"some", "none", "err"} : Finish(t, r)
  \/ Yield \/ Stash \/ End \/ Eof

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Nothing waits unless it has to.
Waits == pend # <<>> => \/ Head(pend).k = "call" /\ ready = "no"
                        \/ Head(pend).k = "resp" /\ sink = "no"
\* A call is only made while the service is ready, and never after an error.
Contract == [][ev'.calls # <<>> => ready' # "err" /\ (ready = "no" => ev'.a = "service")]_vars
\* A permit is for one call.
OnePermit == [][ready = "one" /\ ev'.a # "service" => Len(ev'.calls) <= 1]_vars
\* Serve returns as soon as, and not before, everything is done.
Returns == ret <=> (inp # "open" /\ pend = <<>> /\ run = {})
\* Messages are taken in in order, and none is lost while the input goes on.
Kept == [][inp' # "broke" /\ ev'.a # "arrive" => Len(pend) - Len(pend') = Len(ev'.calls) + ev'.dels + ev'.bads]_vars
\* A failure stops the input for good.
Stays == [][inp # "open" => inp' # "open"]_vars

P2T == [i \in DOMAIN pend |-> <<pend[i].k, pend[i].t>>]
P2Tn == [i \in DOMAIN pend' |-> <<pend'[i].k, pend'[i].t>>]
Emit == PrintT(<<"EDGE", ToJson([
          f |-> ToString(<<[t \in Tokens |-> t \in run], P2T, ready, sink, strm, inp, held, ret>>),
          e |-> ev',
          t |-> ToString(<<[t \in Tokens |-> t \in run'], P2Tn, ready', sink', strm', inp', held', ret'>>)])>>)
EmitSim == PrintT(<<"SIM", ToJson([l |-> TLCGet("level"), e |-> ev])>>)
=============================================================================
