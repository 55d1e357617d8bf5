--------------------------------- MODULE Races ---------------------------------
(***************************************************************************)
(* The life cycle and the requests in flight of a service whose futures    *)
(* are polled, dropped and cancelled on several threads at once, while     *)
(* other threads make calls.                                               *)
(*                                                                         *)
(* A history is a list of operations, each with the interval (lo, hi) of   *)
(* its execution and its outcome; LspService.tla says what each would do   *)
(* alone.  The history is explained if the operations can be taken apart   *)
(* into the atomic steps below, all of an operation's steps within its     *)
(* interval, so that each comes out as recorded.  TLC searches for an      *)
(* explanation of every history; those without one are reported.           *)
(*                                                                         *)
(*   call    a message is passed to the service: request r with id         *)
(*   poll    the future of request r is polled                             *)
(*   idle    nobody has woken the task that waits for request r            *)
(*   drop    the future of request r is dropped                            *)
(*   rel     the handler of request r may finish                           *)
(*   cancel  the future of a `$/cancelRequest` for id is polled            *)
(*   exit    `exit` is passed to the service                               *)
(*   ready   is the service ready                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
  h,      \* number of the history
  pc,     \* operation -> 0 (not started), 1, 2.. (next step), 99 (done)
  life,   \* "uninit", "initing", "init", "shut", "exit"
  rq,     \* requests: [k, id, st, res, rel, ab], st: "none", "fixed", "run", "over"
  inf,    \* ids in flight: id -> request, or 0
  hold    \* cancel operation -> request it has removed, or 0
vars == <<h, pc, life, rq, inf, hold>>

Ops  == Hist[h].ops
Reqs == 1..Hist[h].nr
Ids  == 1..3
None == [k |-> "-", id |-> 0, st |-> "none", res |-> "-", rel |-> FALSE, ab |-> FALSE]

Init ==
  /\ TLCSet(1, {})
  /\ h \in 1..Len(Hist)
  /\ pc = [i \in DOMAIN Ops |-> 0]
  /\ life = "uninit"
  /\ rq = [r \in Reqs |-> None]
  /\ inf = [i \in Ids |-> 0]
  /\ hold = [i \in DOMAIN Ops |-> 0]

Enabled(i) ==
  /\ pc[i] # 99
  /\ pc[i] = 0 => \A j \in DOMAIN Ops : Ops[j].hi < Ops[i].lo => pc[j] = 99

\* Step i goes on with step n (99: it is done).
Go(i, n) == pc' = [pc EXCEPT ![i] = n]

Fixed(r, o, res) == rq' = [rq EXCEPT ![r] = [None EXCEPT !.k = o.k, !.id = o.id, !.st = "fixed", !.res = res, !.rel = @ \/ rq[r].rel]]
Accept(r, o) ==
  IF inf[o.id] # 0 THEN Fixed(r, o, "e-32600") /\ UNCHANGED inf
  ELSE /\ rq' = [rq EXCEPT ![r] = [None EXCEPT !.k = o.k, !.id = o.id, !.st = "run", !.rel = rq[r].rel]]
       /\ inf' = [inf EXCEPT ![o.id] = r]

Call(i) ==
  LET o == Ops[i] IN
  /\ o.op = "call" /\ pc[i] = 0 /\ Go(i, 99) /\ UNCHANGED <<h, hold>>
  /\ CASE life = "exit" -> Fixed(o.r, o, "exited") /\ UNCHANGED <<life, inf>>
       [] life # "exit" /\ o.k = "init" ->
            (IF life = "uninit" THEN life' = "initing" /\ Accept(o.r, o)
             ELSE Fixed(o.r, o, "e-32600") /\ UNCHANGED <<life, inf>>)
       [] OTHER ->
            (IF life # "init" THEN Fixed(o.r, o, IF life = "shut" THEN "e-32600" ELSE "e-32002") /\ UNCHANGED <<life, inf>>
             ELSE /\ life' = (IF o.k = "shut" THEN "shut" ELSE life)
                  /\ Accept(o.r, o))

\* The id is given up, unless somebody else has it by now.
GiveUp(r) == inf' = [inf EXCEPT ![rq[r].id] = IF @ = r THEN 0 ELSE @]
\* An attempt to initialize is over.
Attempt(r, to) == life' = IF rq[r].k = "init" /\ life = "initing" THEN to ELSE life

After(o) == IF o.out = "ok" THEN "init" ELSE "uninit"

Poll(i) ==
  LET o == Ops[i]
      q == rq[o.r] IN
  /\ o.op = "poll" /\ UNCHANGED <<h, hold>>
  /\ CASE pc[i] = 0 /\ q.st = "fixed" ->
            o.out = q.res /\ Go(i, 99) /\ rq' = [rq EXCEPT ![o.r].st = "over"] /\ UNCHANGED <<life, inf>>
       [] pc[i] = 0 /\ q.st = "run" /\ q.ab ->
            o.out = "e-32800" /\ Go(i, 1) /\ UNCHANGED <<life, inf, rq>>
       \* The handler is begun or resumed, and may go on even if it is cancelled while it runs.
       [] pc[i] = 0 /\ q.st = "run" /\ ~q.ab /\ o.out # "pending" ->
            o.out \in {"ok", "err"} /\ o.out = o.want /\ Go(i, 4) /\ UNCHANGED <<life, inf, rq>>
       [] pc[i] = 4 -> q.rel /\ Go(i, 1) /\ UNCHANGED <<life, inf, rq>>
       [] pc[i] = 0 /\ q.st = "run" /\ ~q.ab /\ ~q.rel ->
            o.out = "pending" /\ Go(i, 99) /\ UNCHANGED <<life, inf, rq>>
       [] pc[i] = 1 -> /\ UNCHANGED rq
                       /\ \/ GiveUp(o.r) /\ Go(i, 2) /\ UNCHANGED life
                          \/ Attempt(o.r, After(o)) /\ Go(i, 3) /\ UNCHANGED inf
       [] pc[i] = 2 -> Attempt(o.r, After(o)) /\ Go(i, 99) /\ UNCHANGED inf /\ rq' = [rq EXCEPT ![o.r].st = "over"]
       [] pc[i] = 3 -> GiveUp(o.r) /\ Go(i, 99) /\ UNCHANGED life /\ rq' = [rq EXCEPT ![o.r].st = "over"]
       [] OTHER -> FALSE

\* Whoever waits for a request is woken when it has been cancelled, or when its handler can go on.
Idle(i) ==
  LET o == Ops[i] IN
  /\ o.op = "idle" /\ pc[i] = 0 /\ Go(i, 99) /\ UNCHANGED <<h, life, rq, inf, hold>>
  /\ rq[o.r].st = "run" /\ ~rq[o.r].ab /\ ~rq[o.r].rel

Drop(i) ==
  LET o == Ops[i]
      r == o.r IN
  /\ o.op = "drop" /\ UNCHANGED <<h, hold>>
  /\ IF rq[r].st = "fixed" THEN Go(i, 99) /\ UNCHANGED <<life, inf>> /\ rq' = [rq EXCEPT ![r].st = "over"]
     ELSE CASE pc[i] = 0 -> /\ UNCHANGED rq
                            /\ \/ GiveUp(r) /\ Go(i, 1) /\ UNCHANGED life
                               \/ Attempt(r, "uninit") /\ Go(i, 2) /\ UNCHANGED inf
            [] pc[i] = 1 -> Attempt(r, "uninit") /\ Go(i, 99) /\ UNCHANGED inf /\ rq' = [rq EXCEPT ![r].st = "over"]
            [] pc[i] = 2 -> GiveUp(r) /\ Go(i, 99) /\ UNCHANGED life /\ rq' = [rq EXCEPT ![r].st = "over"]
            [] OTHER -> FALSE

Rel(i) ==
  LET o == Ops[i] IN
  /\ o.op = "rel" /\ pc[i] = 0 /\ Go(i, 99) /\ UNCHANGED <<h, life, inf, hold>>
  /\ rq' = [rq EXCEPT ![o.r].rel = TRUE]

Cancel(i) ==
  LET o == Ops[i] IN
  /\ o.op = "cancel" /\ UNCHANGED <<h, life>>
  /\ o.out = "none"
  /\ CASE pc[i] = 0 /\ inf[o.id] = 0 -> Go(i, 99) /\ UNCHANGED <<inf, rq, hold>>
       [] pc[i] = 0 /\ inf[o.id] # 0 ->
            /\ hold' = [hold EXCEPT ![i] = inf[o.id]] /\ inf' = [inf EXCEPT ![o.id] = 0]
            /\ Go(i, 1) /\ UNCHANGED rq
       [] pc[i] = 1 -> rq' = [rq EXCEPT ![hold[i]].ab = TRUE] /\ Go(i, 99) /\ UNCHANGED <<inf, hold>>
       [] OTHER -> FALSE

Exit(i) ==
  LET o == Ops[i] IN
  /\ o.op = "exit" /\ UNCHANGED <<h, hold>>
  /\ CASE pc[i] = 0 -> life' = "exit" /\ Go(i, 1) /\ UNCHANGED <<rq, inf>>
       [] pc[i] = 1 /\ (\E x \in Ids : inf[x] # 0) ->
            \E x \in Ids : /\ inf[x] # 0
                           /\ rq' = [rq EXCEPT ![inf[x]].ab = TRUE] /\ inf' = [inf EXCEPT ![x] = 0]
                           /\ UNCHANGED <<life, pc>>
       [] OTHER -> Go(i, 99) /\ UNCHANGED <<life, rq, inf>>

Ready(i) ==
  LET o == Ops[i] IN
  /\ o.op = "ready" /\ pc[i] = 0 /\ Go(i, 99) /\ UNCHANGED <<h, life, rq, inf, hold>>
  /\ o.out = (IF life = "exit" THEN "exited" ELSE "ready")

Step(i) == Enabled(i) /\ (Call(i) \/ Poll(i) \/ Idle(i) \/ Drop(i) \/ Rel(i) \/ Cancel(i) \/ Exit(i) \/ Ready(i))

Next == \E i \in DOMAIN Ops : Step(i)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == \A i \in DOMAIN Ops : pc[i] = 99
Explained == Done => TLCSet(1, TLCGet(1) \cup {h})

\* Exit is final, and an id belongs to one request at a time, which is in flight.
Final == [][life = "exit" => life' = "exit"]_vars
Owned == \A x \in Ids : inf[x] # 0 => rq[inf[x]].id = x /\ ~rq[inf[x]].ab

Report ==
  /\ \A n \in (1..Len(Hist)) \ TLCGet(1) :
       PrintT(<<"MISMATCH", ToJson([i |-> n, sc |-> Hist[n].sc, what |-> "no order of the steps explains this history",
                                    expected |-> Hist[n]])>>)
  /\ PrintT(<<"TRACEDONE", Len(Hist)>>)
=============================================================================
