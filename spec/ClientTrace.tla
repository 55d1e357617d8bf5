----------------------------- MODULE ClientTrace -----------------------------
(***************************************************************************)
(* Is a recorded run of the client side one that the specification allows? *)
(* Several threads call the client handle, one reads the messages and one  *)
(* replies, all at the same time.  The recording is a sequence of lines:   *)
(*                                                                         *)
(*   begin  w           a new connection (w: how it is observed)           *)
(*   submit t th k      thread th is about to send message t of kind k     *)
(*                      ("note", "req", "raw" with an id of its own)       *)
(*   read t k id        t has been taken from the stream                   *)
(*   reply id v         the client is about to reply v to request id       *)
(*   got t v            the call that sent t has returned v                *)
(*   sent t             the notification has been handed over              *)
(*   abandon t          the call has been dropped                          *)
(*   ids ids            next_request_id returned these                     *)
(*   stuck t who        the call that sent t does not return               *)
(*   broken p who       something else is wrong, to do with properties p   *)
(*   end                all threads are done                               *)
(*                                                                         *)
(* Every line is one step of the state machine below; a step whose         *)
(* conditions do not hold is reported with the property they belong to.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
  i,        \* lines consumed
  msgs,     \* message -> [k, th, st] with st: "out", "read", "gone" (abandoned before it was read)
  last,     \* thread -> messages it has sent and not abandoned, none of which has been read, in order
  ids,      \* ids used for requests, or handed out
  idof,     \* message -> id it was sent with
  first     \* id -> the first reply to it
vars == <<i, msgs, last, ids, idof, first>>

E == Trace[i + 1]

Put(f, k, v) == (k :> v) @@ f
Has(f, k)    == k \in DOMAIN f
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Without(q, t) == SelectSeq(q, LAMBDA x : x # t)
Empty == <<>>

Must(c, sc, what) ==
  IF c THEN TRUE ELSE PrintT(<<"MISMATCH", ToJson([i |-> i + 1, sc |-> sc, what |-> what, expected |-> E])>>)

Init ==
  /\ i = 0 /\ msgs = Empty /\ last = Empty /\ ids = {} /\ idof = Empty /\ first = Empty

Begin ==
  /\ E.e = "begin"
  /\ msgs' = Empty /\ last' = Empty /\ ids' = {} /\ idof' = Empty /\ first' = Empty

Submit ==
  /\ E.e = "submit"
  /\ msgs' = Put(msgs, E.t, [k |-> E.k, th |-> E.th, st |-> "out"])
  /\ last' = Put(last, E.th, Append(Get(last, E.th, <<>>), E.t))
  /\ UNCHANGED <<ids, idof, first>>

Read ==
  /\ E.e = "read"
  /\ Must(Has(msgs, E.t), {"P12"}, "a message nobody sent")
  /\ IF ~Has(msgs, E.t) THEN UNCHANGED <<msgs, last, ids, idof>>
     ELSE LET m == msgs[E.t] IN
          /\ Must(m.st # "read", {"P12"}, "a message appears twice")
          /\ Must(m.k = E.k, {"P12"}, "a message has changed")
          \* messages of one thread that are in transit arrive in order
          /\ Must(m.st = "gone" \/ Get(last, m.th, <<0>>)[1] = E.t, {"P12"}, "messages of one thread out of order, or lost")
          /\ msgs' = [msgs EXCEPT ![E.t].st = "read"]
          /\ last' = Put(last, m.th, Without(Get(last, m.th, <<>>), E.t))
          /\ IF E.k = "note" THEN UNCHANGED <<ids, idof>>
             ELSE /\ Must(E.id \notin ids, {"P10"}, "an id is used again")
                  /\ ids' = ids \cup {E.id}
                  /\ idof' = Put(idof, E.t, E.id)
  /\ UNCHANGED first

Reply ==
  /\ E.e = "reply"
  /\ first' = IF Has(first, E.id) THEN first ELSE Put(first, E.id, E.v)
  /\ UNCHANGED <<msgs, last, ids, idof>>

Got ==
  /\ E.e = "got"
  /\ Must(Has(idof, E.t) /\ Has(first, idof[E.t]) /\ first[idof[E.t]] = E.v, {"P09"},
          "a call has not returned what the client replied to it first")
  /\ UNCHANGED <<msgs, last, ids, idof, first>>

Sent == E.e = "sent" /\ UNCHANGED <<msgs, last, ids, idof, first>>

Abandon ==
  /\ E.e = "abandon"
  /\ msgs' = IF msgs[E.t].st = "out" THEN [msgs EXCEPT ![E.t].st = "gone"] ELSE msgs
  /\ last' = Put(last, msgs[E.t].th, Without(Get(last, msgs[E.t].th, <<>>), E.t))
  /\ UNCHANGED <<ids, idof, first>>

Ids ==
  /\ E.e = "ids"
  /\ LET S == {E.ids[n] : n \in 1..Len(E.ids)} IN
     /\ Must(Cardinality(S) = Len(E.ids) /\ S \cap ids = {}, {"P10"}, "an id is handed out again")
     /\ ids' = ids \cup S
  /\ UNCHANGED <<msgs, last, idof, first>>

\* a call hangs: either its reply has not reached it, or its message has not been taken
Stuck ==
  /\ E.e = "stuck"
  /\ Must(FALSE, IF Has(idof, E.t) /\ Has(first, idof[E.t]) THEN {"P09"} ELSE {"P12"}, E.who)
  /\ UNCHANGED <<msgs, last, ids, idof, first>>

Broken ==
  /\ E.e = "broken"
  /\ Must(FALSE, {E.p[n] : n \in 1..Len(E.p)}, E.who)
  /\ UNCHANGED <<msgs, last, ids, idof, first>>

End ==
  /\ E.e = "end"
  /\ Must(\A t \in DOMAIN msgs : msgs[t].st # "out", {"P12"}, "a message never arrived")
  /\ UNCHANGED <<msgs, last, ids, idof, first>>

Step == Begin \/ Submit \/ Read \/ Reply \/ Got \/ Sent \/ Abandon \/ Ids \/ Stuck \/ Broken \/ End

Next ==
  /\ i < Len(Trace)
  /\ i' = i + 1
  /\ Step
  /\ i' = Len(Trace) => PrintT(<<"TRACEDONE", i'>>)

Spec == Init /\ [][Next]_vars
=============================================================================
