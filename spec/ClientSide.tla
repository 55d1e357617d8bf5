----------------------------- MODULE ClientSide -----------------------------
(***************************************************************************)
(* The server-to-client direction of a connected service: calls on         *)
(* `Client`, the stream of outgoing messages that a reader takes them      *)
(* from, and the sink for the client's responses.  Each slot stands for a  *)
(* task with one call in progress:                                         *)
(*                                                                         *)
(*   Create   the call's future is created (nothing is sent yet)           *)
(*   Go       the future is polled for the first time: its message is due  *)
(*   Drain    the reader takes messages until there are none; senders are  *)
(*            only polled again when the reader is out of messages         *)
(*   Reply    the client's response to a message that has been read        *)
(*   Poll     the future is polled again                                   *)
(*   Abandon  the future is dropped                                        *)
(*   Dup, Stray  responses that nobody waits for                           *)
(*   Exit     the server exits; whoever was waiting is polled (PollOver)   *)
(* A service that has been shut down (but has not exited) behaves the same. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS K,      \* number of tasks
          Kinds   \* subset of {"req", "raw", "note"}: typed request, `Client::call`, notification

Slots == 1..K
Hows  == {"ok", "err", "bad"}   \* result, error, result of another type

VARIABLES
  slot,   \* Slots -> [k, ph, how]
  over,   \* "no", "exit": the server has exited, "lost": the connection has been dropped,
          \* "gone": the whole server has been dropped
  ev
vars == <<slot, over, ev>>
view == <<slot, over>>

\* ph: free | new | due (polled, message not read yet) | ghost (abandoned while due)
\*     | out (read, waiting for a response) | ans (answered) | old (ended; its id has been seen)
Free == [k |-> "-", ph |-> "free", how |-> "-"]

Init == slot = [s \in Slots |-> Free] /\ over = "no" /\ ev = [a |-> "start"]

Pick(S)  == SelectSeq([i \in 1..K |-> IF i \in S THEN i ELSE 0], LAMBDA x : x # 0)

Log(a, s, k, r, must, may, sc) ==
  [a |-> a, s |-> s, k |-> k, r |-> r, must |-> must, may |-> may, sc |-> sc]

IsReq(k) == k \in {"req", "raw"}

Create(s, k) ==
  /\ over = "no" /\ slot[s].ph \in {"free", "old"}
  /\ slot' = [slot EXCEPT ![s] = [Free EXCEPT !.k = k, !.ph = "new"]]
  /\ ev' = Log("create", s, k, "-", <<>>, <<>>, {"P09", "P12"})
  /\ UNCHANGED over

Go(s) ==
  /\ over = "no" /\ slot[s].ph = "new"
  /\ slot' = [slot EXCEPT ![s].ph = "due"]
  /\ ev' = Log("go", s, slot[s].k, IF IsReq(slot[s].k) THEN "pending" ELSE "any", <<>>, <<>>, {"P09", "P12"})
  /\ UNCHANGED over

\* After this, no message is left, and every notification has been sent.
Drain ==
  LET Due == {s \in Slots : slot[s].ph = "due"}
      Ghosts == {s \in Slots : slot[s].ph = "ghost"}
  IN
  /\ over = "no"
  /\ slot' = [s \in Slots |->
                CASE s \in Due /\ IsReq(slot[s].k) -> [slot[s] EXCEPT !.ph = "out"]
                  [] s \in Due -> Free
                  [] s \in Ghosts -> Free
                  [] OTHER -> slot[s]]
  /\ ev' = Log("drain", 0, "-", "-", Pick(Due), Pick(Ghosts), {"P12", "P10"})
  /\ UNCHANGED over

\* The same, but the client answers one of the requests as soon as it has been read,
\* before the task that sent it is polled again.
Prompt(s, how) ==
  LET Due == {t \in Slots : slot[t].ph = "due"}
      Ghosts == {t \in Slots : slot[t].ph = "ghost"}
  IN
  /\ over = "no" /\ slot[s].ph = "due" /\ IsReq(slot[s].k)
  /\ (how = "bad" => slot[s].k = "req")
  /\ slot' = [t \in Slots |->
                CASE t = s -> [slot[s] EXCEPT !.ph = "ans", !.how = how]
                  [] t \in Due /\ IsReq(slot[t].k) -> [slot[t] EXCEPT !.ph = "out"]
                  [] t \in Due -> Free
                  [] t \in Ghosts -> Free
                  [] OTHER -> slot[t]]
  /\ ev' = Log("drain", s, slot[s].k, how, Pick(Due), Pick(Ghosts), {"P09", "P12", "P10"})
  /\ UNCHANGED over

Reply(s, how) ==
  /\ over = "no" /\ slot[s].ph = "out"
  /\ (how = "bad" => slot[s].k = "req")
  /\ slot' = [slot EXCEPT ![s].ph = "ans", ![s].how = how]
  /\ ev' = Log("reply", s, slot[s].k, how, <<>>, <<>>, {"P09"})
  /\ UNCHANGED over

Dup(s, how) ==
  /\ over = "no" /\ slot[s].ph \in {"ans", "old"} /\ how # "bad"
  /\ ev' = Log("dup", s, slot[s].k, how, <<>>, <<>>, {"P09"})
  /\ UNCHANGED <<slot, over>>

Stray(w) ==
  /\ over = "no"
  /\ ev' = Log("stray", 0, "-", w, <<>>, <<>>, {"P09"})
  /\ UNCHANGED <<slot, over>>

Poll(s) ==
  /\ over = "no"
  /\ \/ /\ slot[s].ph \in {"due", "out"} /\ IsReq(slot[s].k)
        /\ ev' = Log("poll", s, slot[s].k, "pending", <<>>, <<>>, {"P09"})
        /\ UNCHANGED slot
     \/ /\ slot[s].ph = "ans"
        /\ ev' = Log("poll", s, slot[s].k, slot[s].how, <<>>, <<>>, {"P09"})
        /\ slot' = [slot EXCEPT ![s] = [Free EXCEPT !.ph = "old", !.k = "req"]]
  /\ UNCHANGED over

Abandon(s) ==
  /\ over = "no" /\ slot[s].ph \in {"new", "due", "out", "ans"}
  /\ slot' = [slot EXCEPT ![s] =
                CASE slot[s].ph = "new" -> Free
                  [] slot[s].ph = "due" -> [Free EXCEPT !.ph = "ghost", !.k = slot[s].k]
                  [] OTHER -> [Free EXCEPT !.ph = "old", !.k = "req"]]
  /\ ev' = Log("abandon", s, slot[s].k, "-", <<>>, <<>>, {"P09", "P12"})
  /\ UNCHANGED over

NextId ==
  /\ over = "no"
  /\ ev' = Log("nextid", 0, "-", "-", <<>>, <<>>, {"P10"})
  /\ UNCHANGED <<slot, over>>

\* Tasks blocked on sending a notification do not stay blocked.
Exit ==
  /\ over = "no" /\ over' = "exit"
  /\ slot' = [s \in Slots |-> IF slot[s].ph \in {"due", "out", "ans"} /\ IsReq(slot[s].k) THEN slot[s] ELSE Free]
  /\ ev' = Log("exit", 0, "-", "-", Pick({s \in Slots : slot[s].ph = "due" /\ slot[s].k = "note"}),
                Pick({s \in Slots : slot'[s].ph # "free"}), {"P12", "P04"})

\* Neither when nobody is there any more to read what they send.
Lost(w) ==
  /\ over = "no" /\ over' = w
  /\ slot' = [s \in Slots |-> IF slot[s].ph \in {"due", "out", "ans"} /\ IsReq(slot[s].k) THEN slot[s] ELSE Free]
  /\ ev' = Log("lost", 0, "-", w, Pick({s \in Slots : slot[s].ph = "due" /\ slot[s].k = "note"}),
                Pick({s \in Slots : slot'[s].ph # "free"}), {"P12"})

\* Calls made then return at once, and so do those made after an exit.
Late(k) ==
  /\ over \in {"lost", "exit"}
  /\ ev' = Log("late", 0, k, IF IsReq(k) THEN "err" ELSE "sent", <<>>, <<>>, {IF over = "exit" THEN "P11" ELSE "P12"})
  /\ UNCHANGED <<slot, over>>

\* Both ends can be asked for their state at any time: until the exit, no end refuses
\* anything and the stream has not terminated; after it the sink refuses responses.
Probe ==
  /\ over \in {"no", "exit"}
  /\ ev' = Log("probe", 0, "-", over, <<>>, <<>>, {IF over = "no" THEN "P11" ELSE "P04"})
  /\ UNCHANGED <<slot, over>>

\* A task that was waiting when the server exited is polled once more: it need not
\* end, but an answer that has arrived is not lost, and nothing panics.
PollOver(s) ==
  /\ over # "no" /\ slot[s].ph # "free"
  /\ ev' = Log("pollover", s, slot[s].k, IF slot[s].ph = "ans" THEN slot[s].how ELSE "any", <<>>, <<>>, {"P09"})
  /\ slot' = [slot EXCEPT ![s] = Free]
  /\ UNCHANGED over

AbandonOver(s) ==
  /\ over # "no" /\ slot[s].ph # "free"
  /\ ev' = Log("abandon", s, slot[s].k, "-", <<>>, <<>>, {"P09"})
  /\ slot' = [slot EXCEPT ![s] = Free]
  /\ UNCHANGED over

Next ==
  \/ \E s \in Slots :
       \/ \E k \in Kinds : Create(s, k)
       \/ Go(s) \/ Poll(s) \/ Abandon(s) \/ PollOver(s) \/ AbandonOver(s)
       \/ \E how \in Hows : Reply(s, how) \/ Dup(s, how) \/ Prompt(s, how)
  \/ Drain \/ NextId \/ Exit \/ Probe
  \/ \E w \in {"lost", "gone"} : Lost(w)
  \/ \E k \in Kinds : Late(k)
  \/ \E w \in {"null", "unknown", "string"} : Stray(w)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == \A s \in Slots : slot[s].ph \in {"free", "new", "due", "ghost", "out", "ans", "old"}

\* P09: only a response to the call itself completes it, and with what it carries
Completes == [][ev'.a \in {"poll", "pollover"} /\ ev'.r \notin {"pending", "any"} => slot[ev'.s].ph = "ans" /\ slot[ev'.s].how = ev'.r]_vars
\* P09: responses touch at most the call they are addressed to
Addressed == [][ev'.a \in {"reply", "dup", "stray"} => \A s \in Slots : s # ev'.s => slot'[s] = slot[s]]_vars
\* P12: nothing is due after a drain, and what was due has been read
Drained == [][ev'.a = "drain" => \A s \in Slots : slot'[s].ph \notin {"due", "ghost"}]_vars
\* P12: what is abandoned before it was polled is never read
NeverSent == [][ev'.a = "drain" => \A i \in DOMAIN ev'.must : slot[ev'.must[i]].ph = "due"]_vars

Key == ToString(<<slot, over>>)
Emit == PrintT(<<"EDGE", ToJson([f |-> Key, e |-> ev', t |-> ToString(<<slot', over'>>)])>>)
EmitSim == PrintT(<<"SIM", ToJson([l |-> TLCGet("level"), e |-> ev])>>)
=============================================================================
