----------------------------- MODULE LspService -----------------------------
(***************************************************************************)
(* The service core of tower-lsp: the lifecycle state machine, the table   *)
(* of in-flight requests, cancellation, and the gating of server-to-client *)
(* traffic.  One action per public operation on `LspService` and on the    *)
(* futures it returns:                                                     *)
(*                                                                         *)
(*   Call     LspService::call with one message; a message that is not     *)
(*            handed to a handler is answered on the spot (call + poll)    *)
(*   Poll     polling the future of an accepted message                    *)
(*   Release  the event a suspended handler waits for happens              *)
(*   Drop     the future of an accepted message is dropped                 *)
(*   Cancel   a `$/cancelRequest` notification, processed                  *)
(*   Probe    readiness, client stream/sink, and client calls              *)
(*                                                                         *)
(* `ev` records the operation together with everything an observer may     *)
(* rely on (response, handler log, wake-ups) and with the properties whose *)
(* statement the observation is part of.  It is hidden by VIEW.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS N,      \* number of futures in flight
          Ids,    \* request ids
          Ends    \* subset of {"shut", "exit"}: ways to end a session to consider

Slots == 1..N
NoId  == "-"

VARIABLES
  st,     \* lifecycle: "un", "ing", "init", "shut", "exit"
  slot,   \* Slots -> future of an accepted message
  ever,   \* has `initialize` succeeded at some point
  ev      \* last operation and what must be observed

vars == <<st, slot, ever, ev>>
view == <<st, slot, ever>>

Free == [k |-> "free", id |-> NoId, ph |-> "reg", rel |-> "no", ab |-> "no"]

Init ==
  /\ st = "un"
  /\ slot = [s \in Slots |-> Free]
  /\ ever = FALSE
  /\ ev = [a |-> "start"]

-----------------------------------------------------------------------------
(* The slot whose request owns `id`, if any: cancelled requests have given
   up their id already. *)
Owners(id) == {s \in Slots : slot[s].k # "free" /\ slot[s].id = id /\ slot[s].ab = "no"}
Owned(id)  == Owners(id) # {}

FreeSlots  == {s \in Slots : slot[s].k = "free"}
NextSlot   == CHOOSE s \in FreeSlots : \A t \in FreeSlots : s <= t

(* Futures that have been polled and must be woken when something happens. *)
Waiting(S) == {s \in S : slot[s].ph = "run"}

Phase(x) == CASE x \in {"un", "ing"} -> {"P01"}
              [] x = "init"          -> {"P01"}
              [] x = "shut"          -> {"P03"}
              [] x = "exit"          -> {"P04"}

Log(a, s, k, id, r, log, wake, sc) ==
  [a |-> a, s |-> s, k |-> k, id |-> id, r |-> r, log |-> log, wake |-> wake, sc |-> sc]

-----------------------------------------------------------------------------
(* What `call` does with each kind of message.                              *)

\* "req"/"note" stand for built-in and for custom methods alike; the driver
\* draws the concrete method of every message from both.

\* Answered on the spot, with response `r` ("none" for no response).
Answer(k, id, r, sc) ==
  /\ ev' = Log("call", 0, k, id, r, <<>>, {}, sc)
  /\ UNCHANGED <<st, slot, ever>>

\* Accepted: its future is in flight from now on.
Accept(k, id, st2, sc) ==
  /\ FreeSlots # {}
  /\ slot' = [slot EXCEPT ![NextSlot] = [Free EXCEPT !.k = k, !.id = id]]
  /\ st' = st2
  /\ ev' = Log("call", NextSlot, k, id, "accepted", <<>>, {}, sc)
  /\ UNCHANGED ever

CallExited(k, id) == st = "exit" /\ Answer(k, id, "exited", {"P04", "P02", "P03"})

CallInit(id) ==
  /\ st # "exit"
  /\ IF st = "un"
     THEN Accept("init", id, "ing", {"P01", "P02"})
     ELSE Answer("init", id, "e-32600", {"P02"} \cup Phase(st))

CallInitBad(id) ==   \* undecodable params
  /\ st # "exit"
  /\ Answer("initbad", id, IF st = "un" THEN "e-32602" ELSE "e-32600", {"P02"} \cup Phase(st))

CallInitNote ==      \* `initialize` without an id is no request, and changes nothing
  /\ st # "exit"
  /\ Answer("initnote", NoId, "none", {"P02", "P05", "P08"} \cup Phase(st))

CallShutdown(id) ==
  /\ st # "exit" /\ (st = "init" => "shut" \in Ends)
  /\ ~(st = "init" /\ Owned(id))
  /\ CASE st \in {"un", "ing"} -> Answer("shut", id, "e-32002", {"P01", "P02"})
       [] st = "init"          -> Accept("shut", id, "shut", {"P03", "P05", "P01", "P07"})
       [] st = "shut"          -> Answer("shut", id, "e-32600", {"P03"})

CallReq(id) ==
  /\ st # "exit"
  /\ CASE st \in {"un", "ing"} -> Answer("req", id, "e-32002", {"P01", "P02"})
       [] st = "shut"          -> Answer("req", id, "e-32600", {"P03"})
       [] st = "init" /\ Owned(id)  -> Answer("req", id, "e-32600", {"P07", "P06"})
       [] st = "init" /\ ~Owned(id) -> Accept("req", id, st, {"P01", "P05", "P07"})

CallReqBad(id) ==    \* undecodable params: the handler never sees it
  /\ st # "exit"
  /\ CASE st \in {"un", "ing"} -> Answer("reqbad", id, "e-32002", {"P01", "P02"})
       [] st = "shut"          -> Answer("reqbad", id, "e-32600", {"P03"})
       [] st = "init" /\ Owned(id)  -> Answer("reqbad", id, "e-32600", {"P07"})
       [] st = "init" /\ ~Owned(id) -> Answer("reqbad", id, "e-32602", {"P01", "P05", "P07"})

CallNote ==
  /\ st # "exit"
  /\ IF st = "init" THEN Accept("note", NoId, st, {"P01", "P05"})
                    ELSE Answer("note", NoId, "none", {"P05"} \cup Phase(st))

CallNoteBad ==       \* undecodable params
  /\ st # "exit"
  /\ Answer("notebad", NoId, "none", {"P05"} \cup Phase(st))

CallReqNote ==       \* a request method without an id
  /\ st # "exit"
  /\ Answer("reqnote", NoId, "none", {"P05"} \cup Phase(st))

CallNoteReq(id) ==   \* a notification method with an id
  /\ st # "exit"
  /\ Answer("notereq", id, IF st \in {"un", "ing"} THEN "e-32002" ELSE "e-32600",
            {"P05"} \cup Phase(st) \cup (IF st = "init" THEN {"P07"} ELSE {}))

CallUnknown(id) ==
  /\ st # "exit"
  /\ Answer("unk", id, IF st = "init" THEN "e-32601" ELSE "e", {"P05"})

CallUnknownNote ==
  /\ st # "exit"
  /\ Answer("unknote", NoId, "none", {"P05"})

Cancel(id) ==
  /\ IF st = "exit"
     THEN Answer("cancel", id, "exited", {"P04"})
     ELSE /\ slot' = [s \in Slots |-> IF s \in Owners(id) THEN [slot[s] EXCEPT !.ab = "cancel"] ELSE slot[s]]
          /\ ev' = Log("call", 0, "cancel", id, "none", <<>>, Waiting(Owners(id)), {"P06", "P07", "P05"})
          /\ UNCHANGED <<st, ever>>

CancelBad ==         \* a cancellation without a proper id
  /\ st # "exit"
  /\ Answer("cancelbad", NoId, "none", {"P06"})

Exit ==
  LET victims == {s \in Slots : slot[s].id # NoId /\ slot[s].k # "free" /\ slot[s].ab = "no"} IN
  /\ "exit" \in Ends
  /\ IF st = "exit"
     THEN Answer("exit", NoId, "exited", {"P04"})
     ELSE
       /\ st' = "exit"
       /\ slot' = [s \in Slots |-> IF s \in victims THEN [slot[s] EXCEPT !.ab = "exit"] ELSE slot[s]]
       /\ ev' = Log("call", 0, "exit", NoId, "none", <<>>, Waiting(victims), {"P04"})
       /\ UNCHANGED ever

-----------------------------------------------------------------------------
(* Polling, completing and dropping futures.                                *)

\* `initialize` leaves the initializing state when its future ends; nothing
\* else may be undone by that.
AfterInit(s, ok) ==
  IF slot[s].k = "init" /\ st = "ing" THEN (IF ok THEN "init" ELSE "un") ELSE st

PollScope(s) ==
  {"P05", "P06"} \cup (IF slot[s].id # NoId THEN {"P07"} ELSE {})
  \cup (IF slot[s].k = "init" THEN {"P02", "P01"} ELSE {})
  \cup (IF slot[s].ph = "reg" /\ st = "init" THEN {"P01"} ELSE {})
  \cup (IF st = "shut" \/ slot[s].k = "shut" THEN {"P03"} ELSE {})
  \cup (IF st = "exit" \/ slot[s].ab = "exit" THEN {"P04"} ELSE {})

Poll(s) ==
  LET f == slot[s]
      started == IF f.ph = "reg" THEN <<"start">> ELSE <<>>
  IN
  /\ f.k # "free"
  /\ IF f.ab # "no"
     THEN /\ slot' = [slot EXCEPT ![s] = Free]
          /\ st' = AfterInit(s, FALSE)
          /\ UNCHANGED ever
          /\ ev' = Log("poll", s, f.k, f.id, "e-32800", <<>>, {}, PollScope(s))
     ELSE IF f.rel = "no"
     THEN /\ slot' = [slot EXCEPT ![s].ph = "run"]
          /\ UNCHANGED <<st, ever>>
          /\ ev' = Log("poll", s, f.k, f.id, "pending", started, {}, PollScope(s))
     ELSE /\ slot' = [slot EXCEPT ![s] = Free]
          /\ st' = AfterInit(s, f.rel = "ok")
          /\ ever' = (ever \/ (f.k = "init" /\ f.rel = "ok"))
          /\ ev' = Log("poll", s, f.k, f.id, IF f.id = NoId THEN "none" ELSE f.rel,
                       started \o <<"end">>, {}, PollScope(s))

Release(s, out) ==
  /\ slot[s].k # "free"
  /\ slot[s].rel = "no"
  /\ slot[s].id = NoId => out = "ok"
  /\ slot' = [slot EXCEPT ![s].rel = out]
  /\ ev' = Log("rel", s, slot[s].k, slot[s].id, out, <<>>,
               IF slot[s].ab = "no" THEN Waiting({s}) ELSE {}, PollScope(s))
  /\ UNCHANGED <<st, ever>>

Drop(s) ==
  /\ slot[s].k # "free"
  /\ slot' = [slot EXCEPT ![s] = Free]
  /\ st' = AfterInit(s, FALSE)
  /\ ev' = Log("drop", s, slot[s].k, slot[s].id, "-", <<>>, {}, PollScope(s))
  /\ UNCHANGED ever

-----------------------------------------------------------------------------
(* Probes: they change nothing, and what they observe depends on `st` only. *)

Connected == st \in {"init", "shut"}

Probe(k, r, sc) ==
  /\ ev' = Log("probe", 0, k, NoId, r, <<>>, {}, sc)
  /\ UNCHANGED <<st, slot, ever>>

Probes ==
  \/ Probe("ready",  IF st = "exit" THEN "exited" ELSE "ok", Phase(st) \cup {"P04"})
  \/ Probe("stream", IF st = "exit" THEN "end" ELSE "pending", {"P04", "P11"})
  \/ Probe("sink",   IF st = "exit" THEN "exited" ELSE "ok", {"P04"})
     \* Client::send_notification and everything built on it
  \/ Probe("cnote",  IF Connected THEN "sent" ELSE "dropped", {"P11"})
     \* show_message, log_message, telemetry_event
  \/ Probe("cmsg",   IF st = "exit" THEN "dropped" ELSE "sent", {"P11"})
     \* Client::send_request and everything built on it
  \/ Probe("creq",   CASE Connected -> "sent" [] st = "exit" -> "e" [] OTHER -> "e-32002", {"P11"})
     \* show_message_request
  \/ Probe("cmsgreq", IF st = "exit" THEN "e" ELSE "sent", {"P11"})

-----------------------------------------------------------------------------
Calls ==
  \/ \E id \in Ids :
       \/ CallInit(id) \/ CallInitBad(id) \/ CallShutdown(id)
       \/ CallReq(id) \/ CallReqBad(id) \/ CallNoteReq(id) \/ CallUnknown(id)
       \/ \E k \in {"init", "shut", "req", "unk"} : CallExited(k, id)
  \/ CallNote \/ CallNoteBad \/ CallReqNote \/ CallInitNote \/ CallUnknownNote
  \/ CallExited("note", NoId)
  \/ \E id \in Ids : Cancel(id)
  \/ CancelBad
  \/ Exit

Next ==
  \/ Calls
  \/ \E s \in Slots : Poll(s) \/ Drop(s) \/ (\E out \in {"ok", "err"} : Release(s, out))
  \/ Probes

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The properties, on the specification itself.                             *)

Live(s) == slot[s].k # "free"

TypeOK ==
  /\ st \in {"un", "ing", "init", "shut", "exit"}
  /\ \A s \in Slots : slot[s].ph \in {"reg", "run"} /\ slot[s].rel \in {"no", "ok", "err"}

\* P02: one initialize at a time, and only while initializing (or exited)
OneInit ==
  /\ Cardinality({s \in Slots : slot[s].k = "init"}) <= 1
  /\ \A s \in Slots : slot[s].k = "init" => st \in {"ing", "exit"}
  /\ (st = "ing") => \E s \in Slots : slot[s].k = "init"

\* P02: never again after success
InitOnce == [][(ever /\ ev'.a = "call" /\ ev'.k \in {"init", "initbad"}) => ev'.r \in {"e-32600", "exited"}]_vars

\* P01/P03/P04: a handler is only started for messages accepted in the right state
Gated == [][(ev'.a = "call" /\ ev'.r = "accepted")
             => \/ ev'.k = "init" /\ st = "un"
                \/ ev'.k # "init" /\ st = "init" /\ ever]_vars

\* lifecycle order
Rank(x) == CASE x = "un" -> 0 [] x = "ing" -> 1 [] x = "init" -> 2 [] x = "shut" -> 3 [] x = "exit" -> 4
Monotone == [][Rank(st') >= Rank(st) \/ (st = "ing" /\ st' = "un")]_vars
ExitFinal == [][st = "exit" => st' = "exit"]_vars

\* P03: at most one shutdown in flight, none accepted twice
OneShutdown == Cardinality({s \in Slots : slot[s].k = "shut"}) <= 1

\* P04: everything with an id is aborted once exited
ExitAborts == st = "exit" => \A s \in Slots : (Live(s) /\ slot[s].id # NoId) => slot[s].ab # "no"

\* P06/P07: an id has at most one owner; a cancel or a completion touches one slot
OneOwner == \A id \in Ids : Cardinality(Owners(id)) <= 1
Isolated == [][ev'.k # "exit" => Cardinality({s \in Slots : slot'[s] # slot[s]}) <= 1]_vars

\* P05: a response is produced only by the poll that ends its future
Ended == [][ev'.a = "poll" => ((ev'.r = "pending") <=> (slot'[ev'.s].k # "free"))]_vars

\* P06: a cancelled handler makes no progress
NoProgress == [][(ev'.a = "poll" /\ slot[ev'.s].ab # "no") => ev'.log = <<>>]_vars

-----------------------------------------------------------------------------
(* Output of the labelled transition graph for the conformance driver.      *)
Key == ToString(<<st, slot, ever>>)
Emit == PrintT(<<"EDGE", ToJson([f |-> Key, e |-> ev', t |-> ToString(<<st', slot', ever'>>)])>>)

\* Used as an invariant in simulation mode: prints the behaviour instead of the graph.
EmitSim == PrintT(<<"SIM", ToJson([l |-> TLCGet("level"), e |-> ev])>>)
=============================================================================
