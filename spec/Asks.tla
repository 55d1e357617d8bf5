-------------------------------- MODULE Asks --------------------------------
(***************************************************************************)
(* Requests to the client in large numbers.  ClientSide.tla follows every  *)
(* call; here whole groups of calls share one fate, so that hundreds of    *)
(* calls wait for room, or for the client, at once.                        *)
(*                                                                         *)
(*   send     the calls of a group are made, but nothing is read yet       *)
(*   read     everything that has been sent is read                        *)
(*   answer   the client answers each call of a group                      *)
(*   again    the client answers all calls ever answered or abandoned      *)
(*   abandon  the calls are given up                                       *)
(*   tell     one task sends `n` notifications one after the other         *)
(*   exit     the server exits                                             *)
(*   close    the connection is dropped                                    *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC, Json

CONSTANTS Groups

VARIABLES
  phase,  \* "open", "exited", "closed"
  call,   \* group -> "none", "sent" (and not read), "read" (and waits), "stuck" (waits for ever)
  past,   \* there are calls that have been answered or abandoned
  told,   \* a task is sending notifications that have not been read
  ev
vars == <<phase, call, past, told, ev>>
view == <<phase, call, past, told>>

Init == phase = "open" /\ call = [g \in Groups |-> "none"] /\ past = FALSE /\ told = FALSE /\ ev = [a |-> "begin"]

\* `outs`: the groups whose messages are read; `ends`: the groups whose calls end with an error
Log(a, g, outs, ends, sc) == ev' = [a |-> a, g |-> g, outs |-> outs, ends |-> ends, phase |-> phase, told |-> told, sc |-> sc]

Send(g) ==
  /\ call[g] = "none"
  /\ IF phase = "open"
     THEN call' = [call EXCEPT ![g] = "sent"] /\ UNCHANGED <<phase, past, told>> /\ Log("send", g, {}, {}, {"P12", "P09"})
     ELSE UNCHANGED <<phase, call, past, told>> /\ Log("send", g, {}, {g}, {"P11", "P12"})

Sent == {g \in Groups : call[g] = "sent"}

Read ==
  /\ phase = "open"
  /\ call' = [g \in Groups |-> IF g \in Sent THEN "read" ELSE call[g]] /\ told' = FALSE
  /\ UNCHANGED <<phase, past>>
  /\ Log("read", "-", Sent, {}, {"P12", "P10"})

Answer(g) ==
  /\ phase = "open" /\ call[g] = "read"
  /\ call' = [call EXCEPT ![g] = "none"] /\ past' = TRUE
  /\ UNCHANGED <<phase, told>>
  /\ Log("answer", g, {}, {g}, {"P09"})

Again ==
  /\ phase = "open" /\ past
  /\ UNCHANGED <<phase, call, past, told>>
  /\ Log("again", "-", {}, {}, {"P09"})

Abandon(g) ==
  /\ call[g] # "none"
  /\ call' = [call EXCEPT ![g] = "none"] /\ past' = (past \/ call[g] = "read")
  /\ UNCHANGED <<phase, told>>
  /\ Log("abandon", g, {}, {}, {"P09", "P12"})

Tell ==
  /\ ~told /\ told' = (phase = "open")
  /\ UNCHANGED <<phase, call, past>>
  /\ Log("tell", "-", {}, {}, {"P12", "P11"})

\* Those that wait for room are told; those that wait for the client are not (left open)
Stop(a, to, sc) ==
  /\ phase = "open" /\ phase' = to
  /\ call' = [g \in Groups |-> IF call[g] = "none" THEN "none" ELSE "stuck"] /\ told' = FALSE
  /\ UNCHANGED past
  /\ Log(a, "-", {}, {}, sc)

Next ==
  \/ \E g \in Groups : Send(g) \/ Answer(g) \/ Abandon(g)
  \/ Read \/ Again \/ Tell \/ Stop("exit", "exited", {"P12", "P04"}) \/ Stop("close", "closed", {"P12", "P09"})

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* P12: whatever was sent and not given up has been read after a read
AllRead == [][ev'.a = "read" => \A g \in Groups : call'[g] # "sent"]_vars
\* P09: a call ends only by its answer, by being given up, or at once when the server is gone
Own == [][\A g \in Groups : call[g] # "none" /\ call'[g] = "none" => ev'.g = g /\ ev'.a \in {"answer", "abandon"}]_vars
\* P11
Over == phase # "open" => ~told /\ \A g \in Groups : call[g] \in {"none", "stuck"}

Key == ToString(<<phase, call, past, told>>)
Emit == PrintT(<<"EDGE", ToJson([f |-> Key, e |-> ev', t |-> ToString(<<phase', call', past', told'>>)])>>)
=============================================================================
