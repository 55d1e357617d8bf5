------------------------------- MODULE Progress -------------------------------
(***************************************************************************)
(* `$/progress` streams: what the builder and the ongoing handle emit for  *)
(* every sequence of calls their types allow, for several handles whose    *)
(* calls interleave, before, during and after the initialized state.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
  H,        \* handles at a time
  Limit     \* reports per handle

Handles == 1..H

VARIABLES
  ph,     \* handle -> "none", "build", "on"
  pct,    \* handle -> percentages are reported
  can,    \* handle -> can be cancelled
  msg,    \* handle -> has a message to begin with
  n,      \* handle -> reports so far
  sent,   \* handle -> notifications emitted since it was created
  life,   \* "uninit", "init", "exit"
  ev
vars == <<ph, pct, can, msg, n, sent, life, ev>>
view == <<ph, pct, can, msg, n, life>>

Init ==
  /\ ph = [h \in Handles |-> "none"]
  /\ pct = [h \in Handles |-> FALSE] /\ can = [h \in Handles |-> FALSE] /\ msg = [h \in Handles |-> FALSE]
  /\ n = [h \in Handles |-> 0] /\ sent = [h \in Handles |-> <<>>]
  /\ life = "uninit" /\ ev = [a |-> "start"]

\* What is written: nothing outside the initialized state.
Note(kind, p, c, m) == IF life = "init" THEN <<[kind |-> kind, pct |-> p, can |-> c, msg |-> m]>> ELSE <<>>

Step(a, h, more, out) ==
  ev' = [a |-> a, h |-> h, out |-> out, sc |-> IF life = "init" THEN {"P19"} ELSE {"P19", "P11"}] @@ more
Emitted(h, out) == sent' = [sent EXCEPT ![h] = @ \o out]

New(h) ==
  /\ ph[h] = "none"
  /\ ph' = [ph EXCEPT ![h] = "build"]
  /\ pct' = [pct EXCEPT ![h] = FALSE] /\ can' = [can EXCEPT ![h] = FALSE] /\ msg' = [msg EXCEPT ![h] = FALSE]
  /\ n' = [n EXCEPT ![h] = 0] /\ sent' = [sent EXCEPT ![h] = <<>>]
  /\ Step("new", h, [x |-> 0], <<>>)
  /\ UNCHANGED life

WithPercentage(h) ==
  /\ ph[h] = "build" /\ ~pct[h]
  /\ pct' = [pct EXCEPT ![h] = TRUE]
  /\ Step("pct", h, [x |-> 0], <<>>)
  /\ UNCHANGED <<ph, can, msg, n, sent, life>>

WithCancel(h) ==
  /\ ph[h] = "build" /\ ~can[h]
  /\ can' = [can EXCEPT ![h] = TRUE]
  /\ Step("can", h, [x |-> 0], <<>>)
  /\ UNCHANGED <<ph, pct, msg, n, sent, life>>

\* may be called again: the last message counts
WithMessage(h) ==
  /\ ph[h] = "build"
  /\ msg' = [msg EXCEPT ![h] = TRUE]
  /\ Step("msg", h, [x |-> 0], <<>>)
  /\ UNCHANGED <<ph, pct, can, n, sent, life>>

Begin(h) ==
  /\ ph[h] = "build"
  /\ ph' = [ph EXCEPT ![h] = "on"]
  /\ LET out == Note("begin", pct[h], IF can[h] THEN "true" ELSE "no", msg[h]) IN
     Step("begin", h, [x |-> 0], out) /\ Emitted(h, out)
  /\ UNCHANGED <<pct, can, msg, n, life>>

\* m: with a message; c: "no", "true", "false", what is said about the cancel button
Report(h, m, c) ==
  /\ ph[h] = "on" /\ n[h] < Limit
  /\ ~can[h] => c = "no"
  /\ (~pct[h] /\ ~can[h]) => m                   \* the message is all there is to report
  /\ (~pct[h] /\ can[h] /\ ~m) => c # "no"       \* the button is all there is to report
  /\ n' = [n EXCEPT ![h] = @ + 1]
  /\ LET out == Note("report", pct[h], c, m) IN
     Step("report", h, [m |-> m, c |-> c, p |-> pct[h], k |-> can[h]], out) /\ Emitted(h, out)
  /\ UNCHANGED <<ph, pct, can, msg, life>>

Unbound(h) ==
  /\ ph[h] = "on" /\ pct[h]
  /\ pct' = [pct EXCEPT ![h] = FALSE]
  /\ Step("unbound", h, [x |-> 0], <<>>)
  /\ UNCHANGED <<ph, can, msg, n, sent, life>>

Finish(h, m) ==
  /\ ph[h] = "on"
  /\ ph' = [ph EXCEPT ![h] = "none"]
  \* one value stands for a handle that is gone
  /\ pct' = [pct EXCEPT ![h] = FALSE] /\ can' = [can EXCEPT ![h] = FALSE] /\ msg' = [msg EXCEPT ![h] = FALSE]
  /\ n' = [n EXCEPT ![h] = 0]
  /\ LET out == Note("end", FALSE, "no", m) IN
     Step("finish", h, [m |-> m], out) /\ Emitted(h, out)
  /\ UNCHANGED life

\* Dropping a handle emits nothing.
Drop(h) ==
  /\ ph[h] # "none"
  /\ ph' = [ph EXCEPT ![h] = "none"]
  /\ pct' = [pct EXCEPT ![h] = FALSE] /\ can' = [can EXCEPT ![h] = FALSE] /\ msg' = [msg EXCEPT ![h] = FALSE]
  /\ n' = [n EXCEPT ![h] = 0]
  /\ Step("drop", h, [x |-> 0], <<>>)
  /\ UNCHANGED <<sent, life>>

Live(a, from, to) ==
  /\ life = from /\ life' = to
  /\ Step(a, 0, [x |-> 0], <<>>)
  /\ UNCHANGED <<ph, pct, can, msg, n, sent>>

Next ==
  \/ \E h \in Handles :
       \/ New(h) \/ WithPercentage(h) \/ WithCancel(h) \/ WithMessage(h) \/ Begin(h) \/ Unbound(h) \/ Drop(h)
       \/ \E m \in BOOLEAN : Finish(h, m) \/ \E c \in {"no", "true", "false"} : Report(h, m, c)
  \/ Live("init", "uninit", "init") \/ Live("exit", "init", "exit")

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* P19, on the history of a handle: begin first and once, the end last and  *)
(* once; a percentage in the begin iff asked for, and never again after it  *)
(* has been given up.                                                       *)
Ordered == \A h \in Handles :
  LET s == sent[h] IN \A i \in 1..Len(s) :
    /\ s[i].kind = "begin" => i = 1
    /\ s[i].kind = "end" => i = Len(s) /\ ph[h] = "none"
    /\ s[i].kind # "report" => s[i].can \in {"no", "true"}
Monotone == \A h \in Handles :
  LET s == sent[h] IN \A i, j \in 1..Len(s) :
    (i < j /\ s[i].kind = "report" /\ s[j].kind = "report" /\ s[j].pct) => s[i].pct
Silent == [][life # "init" => ev'.out = <<>>]_vars

Emit == PrintT(<<"EDGE", ToJson([f |-> ToString(view), e |-> ev', t |-> ToString(view')])>>)
EmitSim == PrintT(<<"SIM", ToJson([l |-> TLCGet("level"), e |-> ev])>>)
=============================================================================
