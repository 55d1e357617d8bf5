-------------------------------- MODULE Slots --------------------------------
(***************************************************************************)
(* The concurrency limit of `Server::serve` at real sizes.  Serve.tla      *)
(* follows every message; here they are only counted, so that limits of    *)
(* hundreds and bursts of hundreds of messages can be dealt with.          *)
(*                                                                         *)
(*   open    a server with limit `c` is started                            *)
(*   arrive  `n` messages arrive, whose handlers have to wait              *)
(*   rush    `n` messages arrive whose handlers end at once                *)
(*   finish  `n` of the running handlers end (they return, fail, get the   *)
(*           reply they wait for, or, if a slot is free, are cancelled)    *)
(*   exit    the server exits: requests are cancelled, running or not      *)
(*   eof     the input ends                                                *)
(*                                                                         *)
(* `starts`: how many waiting handlers start, which are always the oldest. *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC, Json

CONSTANTS Limits,   \* the limits looked at
          Most,     \* handlers started at most, for limits beyond
          Waiting   \* messages waiting for a slot at most

VARIABLES
  c,     \* limit, 0 before the start
  asks,  \* "no", "yes": handlers may wait for the client, "pure": and there are no notifications
  run,   \* number of handlers running
  wait,  \* number of messages that have been received and not started
  inp,   \* "open", "exit" (the server has exited), "closed"
  ret,   \* serve has returned
  ev
vars == <<c, asks, run, wait, inp, ret, ev>>
view == <<c, asks, run, wait, inp, ret>>

Init == c = 0 /\ asks = "no" /\ run = 0 /\ wait = 0 /\ inp = "open" /\ ret = FALSE /\ ev = [a |-> "start"]

Min(x, y) == IF x < y THEN x ELSE y

\* How many messages there may be altogether
Totals ==
  LET m == Min(c, Most) IN
  {t \in {0, 1, m \div 2, m - 1, m} \cup (IF c <= Most THEN {m + 1, m + (Waiting \div 4), m + Waiting} ELSE {}) : t >= 0}

Log(a, n, starts, sc) ==
  ev' = [a |-> a, c |-> c', asks |-> asks', n |-> n, starts |-> starts, run |-> run', wait |-> wait', ret |-> ret',
         free |-> run < c, open |-> inp = "open", sc |-> sc]

Open(l, b) ==
  /\ c = 0 /\ c' = l /\ asks' = b
  /\ UNCHANGED <<run, wait, inp, ret>>
  /\ Log("open", 0, 0, {"P17", "P16"})

\* Messages that have been received start as soon as there is room for them.
Fill(r, w) ==
  LET s == Min(c - r, w) IN run' = r + s /\ wait' = w - s

Arrive(n) ==
  /\ c # 0 /\ inp = "open" /\ n > 0 /\ run + wait + n \in Totals
  /\ Fill(run, wait + n)
  /\ UNCHANGED <<c, asks, inp, ret>>
  /\ Log("arrive", n, run' - run, {"P16", "P18", "P17"})

Rush(n) ==
  /\ c # 0 /\ inp = "open" /\ run < c
  /\ UNCHANGED <<c, asks, run, wait, inp, ret>>
  /\ Log("rush", n, n, {"P16", "P05", "P15", "P18", "P17"})

Finish(n) ==
  /\ c # 0 /\ ~ret /\ inp # "exit" /\ n \in 1..run /\ run + wait - n \in Totals
  /\ Fill(run - n, wait)
  /\ ret' = (inp = "closed" /\ run' + wait' = 0)
  /\ UNCHANGED <<c, asks, inp>>
  /\ Log("finish", n, run' - (run - n), {"P16", "P05", "P15", "P18", "P17"})

Exit ==
  /\ c # 0 /\ inp = "open" /\ asks = "pure"
  /\ inp' = "exit" /\ run' = 0 /\ wait' = 0
  /\ UNCHANGED <<c, asks, ret>>
  /\ Log("exit", 0, 0, {"P04", "P18", "P16", "P05"})

Eof ==
  /\ c # 0 /\ inp # "closed" /\ (asks # "no" => run = 0)
  /\ inp' = "closed" /\ ret' = (run = 0)
  /\ UNCHANGED <<c, asks, run, wait>>
  /\ Log("eof", 0, 0, {"P17"})

Next ==
  \/ \E l \in Limits, b \in {"no", "yes", "pure"} : Open(l, b)
  \/ \E n \in 1..(Most + Waiting) : Arrive(n) \/ Finish(n)
  \/ \E n \in {1, 40, 300} : Rush(n)
  \/ Exit \/ Eof

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* P16
Limit  == run <= c
NoIdle == wait > 0 => run = c
\* No message is skipped, none starts twice
Steady == [][c # 0 => (CASE ev'.a = "arrive" -> run' + wait' = run + wait + ev'.n
                         [] ev'.a = "finish" -> run' + wait' = run + wait - ev'.n
                         [] ev'.a = "exit" -> run' + wait' = 0
                         [] OTHER -> run' + wait' = run + wait)]_vars
\* P17
\* P04
Exited == inp = "exit" => run + wait = 0
Returns == ret <=> (inp = "closed" /\ run + wait = 0)

Key == ToString(<<c, asks, run, wait, inp, ret>>)
Emit == PrintT(<<"EDGE", ToJson([f |-> Key, e |-> ev', t |-> ToString(<<c', asks', run', wait', inp', ret'>>)])>>)
=============================================================================
