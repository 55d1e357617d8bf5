------------------------------- MODULE Servers -------------------------------
(***************************************************************************)
(* Several servers in one process: each is an `LspService` that is served  *)
(* on a connection of its own.  They use the same ids, yet nothing that    *)
(* happens to one of them may be noticed by another, and one that is       *)
(* opened where another one has ended knows nothing about it.              *)
(*                                                                         *)
(*   open     a server is started                                          *)
(*   init     it is initialized                                            *)
(*   req,ask  a request arrives whose handler waits for permission to      *)
(*            finish, or for the client's reply to a request of its own    *)
(*   again    a request arrives whose id is in use                         *)
(*   finish   a handler may finish, or the client replies to it            *)
(*   cancel   a request is cancelled                                       *)
(*   stray    a cancellation and a reply arrive for an id that is not in   *)
(*            use here, but may be so elsewhere                            *)
(*   tell     the server sends a notification of its own accord            *)
(*   bad      malformed input arrives                                      *)
(*   down     the server is shut down                                      *)
(*   exit     it exits                                                     *)
(*   eof      its input ends                                               *)
(*   drop     the future of its `serve` is dropped                         *)
(*                                                                         *)
(* A message may have been received in part when others get theirs.        *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json

CONSTANTS Ids, Servers

VARIABLES
  life,   \* server -> "off", "new", "up", "down", "gone"
  open,   \* server -> its input has not ended
  fl,     \* server -> id -> "none", "req", "ask"
  ev
vars == <<life, open, fl, ev>>
view == <<life, open, fl>>

None == [i \in Ids |-> "none"]
Init ==
  /\ life = [s \in Servers |-> "off"] /\ open = [s \in Servers |-> FALSE] /\ fl = [s \in Servers |-> None]
  /\ ev = [a |-> "start"]

Busy(f) == {i \in Ids : f[i] # "none"}

\* `outs`: what this server writes; the others write nothing
Log(a, s, i, outs) ==
  ev' = [a |-> a, s |-> s, i |-> i, outs |-> outs,
         run |-> [x \in Servers |-> Cardinality(Busy(fl'[x]))],
         on |-> [x \in Servers |-> life'[x] # "off"],
         listens |-> life'[s] \notin {"off", "gone"} /\ open'[s], sc |-> {"P23"}]

Listens(s) == life[s] # "off" /\ open[s] /\ life[s] # "gone"

Open(s) ==
  /\ life[s] = "off"
  /\ life' = [life EXCEPT ![s] = "new"] /\ open' = [open EXCEPT ![s] = TRUE] /\ UNCHANGED fl
  /\ Log("open", s, 0, {})

Initialize(s) ==
  /\ Listens(s) /\ life[s] = "new"
  /\ life' = [life EXCEPT ![s] = "up"] /\ UNCHANGED <<open, fl>>
  /\ Log("init", s, 0, {<<"init", 0>>})

Request(s, i, k) ==
  /\ Listens(s) /\ fl[s][i] = "none" /\ UNCHANGED <<life, open>>
  /\ CASE life[s] = "up" ->
            /\ fl' = [fl EXCEPT ![s][i] = k]
            /\ Log(k, s, i, IF k = "ask" THEN {<<"ask", i>>} ELSE {})
       [] life[s] = "new" -> UNCHANGED fl /\ Log(k, s, i, {<<"e-32002", i>>})
       [] OTHER -> UNCHANGED fl /\ Log(k, s, i, {<<"e-32600", i>>})

Again(s, i) ==
  /\ Listens(s) /\ fl[s][i] # "none" /\ UNCHANGED <<life, open, fl>>
  /\ Log("again", s, i, {<<"e-32600", i>>})

\* A server ends when it has nothing left to do.
End(s, lf, op, f) == op = FALSE /\ (lf = "gone" \/ Busy(f) = {})

Finish(s, i) ==
  /\ life[s] \in {"up", "down"} /\ fl[s][i] # "none" /\ (fl[s][i] = "ask" => open[s])
  /\ fl' = [fl EXCEPT ![s][i] = "none"]
  /\ life' = [life EXCEPT ![s] = IF End(s, life[s], open[s], fl'[s]) THEN "off" ELSE @]
  /\ UNCHANGED open
  /\ Log("finish", s, i, {<<"done", i>>})

Cancel(s, i) ==
  /\ Listens(s) /\ fl[s][i] # "none"
  /\ fl' = [fl EXCEPT ![s][i] = "none"] /\ UNCHANGED <<life, open>>
  /\ Log("cancel", s, i, {<<"e-32800", i>>})

Stray(s, i) ==
  /\ Listens(s) /\ fl[s][i] = "none" /\ UNCHANGED <<life, open, fl>>
  /\ Log("stray", s, i, {})

\* Also through the handle of a server that has ended
Tell(s) ==
  /\ UNCHANGED <<life, open, fl>>
  /\ Log("tell", s, 0, IF life[s] \in {"new", "up", "down"} THEN {<<"tell", 0>>} ELSE {})

Bad(s) ==
  /\ Listens(s) /\ UNCHANGED <<life, open, fl>>
  /\ Log("bad", s, 0, {<<"e-32700", 0>>})

Down(s) ==
  /\ Listens(s) /\ life[s] = "up"
  /\ life' = [life EXCEPT ![s] = "down"] /\ UNCHANGED <<open, fl>>
  /\ Log("down", s, 0, {<<"down", 0>>})

Exit(s) ==
  /\ Listens(s)
  /\ life' = [life EXCEPT ![s] = "gone"] /\ fl' = [fl EXCEPT ![s] = None] /\ UNCHANGED open
  /\ Log("exit", s, 0, {<<"e-32800", i>> : i \in Busy(fl[s])})

Eof(s) ==
  /\ life[s] # "off" /\ open[s] /\ \A i \in Ids : fl[s][i] # "ask"
  /\ open' = [open EXCEPT ![s] = FALSE]
  /\ life' = [life EXCEPT ![s] = IF End(s, life[s], FALSE, fl[s]) THEN "off" ELSE @]
  /\ UNCHANGED fl
  /\ Log("eof", s, 0, {})

Drop(s) ==
  /\ life[s] # "off"
  /\ life' = [life EXCEPT ![s] = "off"] /\ open' = [open EXCEPT ![s] = FALSE] /\ fl' = [fl EXCEPT ![s] = None]
  /\ Log("drop", s, 0, {})

Act(s) ==
  \/ Open(s) \/ Initialize(s) \/ Tell(s) \/ Bad(s) \/ Down(s) \/ Exit(s) \/ Eof(s) \/ Drop(s)
  \/ \E i \in Ids : Request(s, i, "req") \/ Request(s, i, "ask") \/ Again(s, i) \/ Finish(s, i) \/ Cancel(s, i) \/ Stray(s, i)

Next == \E s \in Servers : Act(s)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK ==
  /\ life \in [Servers -> {"off", "new", "up", "down", "gone"}]
  /\ open \in [Servers -> BOOLEAN]
  /\ fl \in [Servers -> [Ids -> {"none", "req", "ask"}]]

Quiet == \A s \in Servers : life[s] \notin {"up", "down"} => Busy(fl[s]) = {}

\* P23: a step of one server leaves the others alone
Alone == [][\A s \in Servers : ev'.s # s => life'[s] = life[s] /\ open'[s] = open[s] /\ fl'[s] = fl[s]]_vars

\* ... and one that is opened starts from scratch, whatever has been there before.
Fresh == [][ev'.a = "open" => life'[ev'.s] = "new" /\ fl'[ev'.s] = None]_vars

Key == ToString(view)
Emit == PrintT(<<"EDGE", ToJson([f |-> Key, e |-> ev', t |-> ToString(view')])>>)
EmitSim == PrintT(<<"SIM", ToJson([l |-> TLCGet("level"), e |-> ev])>>)
=============================================================================
