-------------------------------- MODULE Bulk --------------------------------
(***************************************************************************)
(* Requests in large numbers.  LspService.tla follows every request; here  *)
(* whole groups of requests, each with an id of its own, share one fate,   *)
(* so that hundreds of requests can be in flight (and more than 65536 have *)
(* been) when they are cancelled, answered, dropped or the server exits.   *)
(*                                                                         *)
(*   start    the requests of a group are passed to the service            *)
(*   dup      so are others with the same ids                              *)
(*   finish   the handlers end and the responses are taken                 *)
(*   abandon  the futures of the running requests are dropped              *)
(*   cancel   a `$/cancelRequest` notification for each id is processed    *)
(*   collect  the responses of cancelled requests are taken                *)
(*   forget   the futures of cancelled requests are dropped                *)
(*   shutdown, exit                                                        *)
(*                                                                         *)
(* A group whose requests have been cancelled may be started again before  *)
(* the old responses have been taken: `old` counts such generations.       *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC, Json

CONSTANTS Groups, Generations

VARIABLES
  phase,  \* "open", "shut", "exited"
  run,    \* the groups whose requests are running
  old,    \* per group: cancelled generations not taken yet
  ev
vars == <<phase, run, old, ev>>
view == <<phase, run, old>>

Init == phase = "open" /\ run = {} /\ old = [g \in Groups |-> 0] /\ ev = [a |-> "begin"]

\* `resp`: how each request of the message is answered at once, "none" if it is not
Log(a, g, resp, woken, sc) ==
  ev' = [a |-> a, g |-> g, resp |-> resp, woken |-> woken, run |-> run', sc |-> sc]

Start(g) ==
  /\ g \notin run
  /\ UNCHANGED <<phase, old>>
  /\ IF phase = "open"
     THEN run' = run \cup {g} /\ Log("start", g, "none", FALSE, {"P06", "P07", "P05"})
     ELSE /\ run' = run
          /\ IF phase = "shut" THEN Log("start", g, "e-32600", FALSE, {"P01", "P05"})
             ELSE Log("start", g, "exited", FALSE, {"P02", "P04"})

Dup(g) ==
  /\ g \in run
  /\ UNCHANGED <<phase, run, old>>
  /\ Log("dup", g, "e-32600", FALSE, {"P06", "P05"})

Finish(g) ==
  /\ g \in run /\ run' = run \ {g}
  /\ UNCHANGED <<phase, old>>
  /\ Log("finish", g, "result", TRUE, {"P05", "P06", "P07"})

Abandon(g) ==
  /\ g \in run /\ run' = run \ {g}
  /\ UNCHANGED <<phase, old>>
  /\ Log("abandon", g, "none", FALSE, {"P06", "P07"})

Cancel(g) ==
  /\ phase # "exited"
  /\ g \in run => old[g] < Generations
  /\ run' = run \ {g}
  /\ old' = IF g \in run THEN [old EXCEPT ![g] = @ + 1] ELSE old
  /\ UNCHANGED phase
  /\ Log("cancel", g, "none", g \in run, {"P07", "P06"})

Collect(g) ==
  /\ old[g] > 0 /\ old' = [old EXCEPT ![g] = 0]
  /\ UNCHANGED <<phase, run>>
  /\ Log("collect", g, "e-32800", FALSE, IF phase = "exited" THEN {"P04", "P07", "P05"} ELSE {"P07", "P05"})

Forget(g) ==
  /\ old[g] > 0 /\ old' = [old EXCEPT ![g] = 0]
  /\ UNCHANGED <<phase, run>>
  /\ Log("forget", g, "none", FALSE, {"P07", "P06"})

Shutdown ==
  /\ phase = "open" /\ phase' = "shut"
  /\ UNCHANGED <<run, old>>
  /\ Log("shutdown", "-", "none", FALSE, {"P01", "P04", "P05"})

Exit ==
  /\ phase # "exited" /\ phase' = "exited"
  /\ run' = {}
  /\ old' = [g \in Groups |-> old[g] + (IF g \in run THEN 1 ELSE 0)]
  /\ Log("exit", "-", "none", TRUE, {"P04"})

Next ==
  \/ \E g \in Groups : Start(g) \/ Dup(g) \/ Finish(g) \/ Abandon(g) \/ Cancel(g) \/ Collect(g) \/ Forget(g)
  \/ Shutdown \/ Exit

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* P02, P04
Over == phase = "exited" => run = {}
\* P07: nothing that is asked of one group touches another
Apart == [][\A g \in Groups : (g \in run /\ g \notin run') => (ev'.g = g \/ ev'.a = "exit")]_vars
\* P06: none is answered twice, none runs twice
Once == [][\A g \in Groups :
             LET live(r, o) == o[g] + (IF g \in r THEN 1 ELSE 0) IN
             CASE ev'.a = "start" /\ ev'.g = g /\ ev'.resp = "none" -> live(run', old') = live(run, old) + 1
               [] ev'.a \in {"finish", "abandon"} /\ ev'.g = g -> live(run', old') = live(run, old) - 1
               [] ev'.a \in {"collect", "forget"} /\ ev'.g = g -> live(run', old') = live(run, old) - old[g]
               [] OTHER -> live(run', old') = live(run, old)]_vars

Key == ToString(<<phase, run, old>>)
Emit == PrintT(<<"EDGE", ToJson([f |-> Key, e |-> ev', t |-> ToString(<<phase', run', old'>>)])>>)
=============================================================================
