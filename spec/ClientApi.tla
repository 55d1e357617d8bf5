------------------------------ MODULE ClientApi ------------------------------
(***************************************************************************)
(* Every method of the client handle: the LSP message it stands for, when  *)
(* it is sent in the life of the server, and what the caller gets back.    *)
(* One request is outstanding at a time (ClientSide.tla has many), but the *)
(* server may move on meanwhile.                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

VARIABLES
  life,   \* "uninit", "initing", "init", "shut", "exit"
  open,   \* the request waiting for a reply, or "-"
  ev
vars == <<life, open, ev>>
view == <<life, open>>

\* function of the handle |-> <<LSP method, kind, sent in any state before exit>>
Api == [
  register_capability          |-> <<"client/registerCapability", "req", FALSE>>,
  unregister_capability        |-> <<"client/unregisterCapability", "req", FALSE>>,
  show_message_request         |-> <<"window/showMessageRequest", "req", TRUE>>,
  show_document                |-> <<"window/showDocument", "req", FALSE>>,
  code_lens_refresh            |-> <<"workspace/codeLens/refresh", "req", FALSE>>,
  semantic_tokens_refresh      |-> <<"workspace/semanticTokens/refresh", "req", FALSE>>,
  inline_value_refresh         |-> <<"workspace/inlineValue/refresh", "req", FALSE>>,
  inlay_hint_refresh           |-> <<"workspace/inlayHint/refresh", "req", FALSE>>,
  workspace_diagnostic_refresh |-> <<"workspace/diagnostic/refresh", "req", FALSE>>,
  configuration                |-> <<"workspace/configuration", "req", FALSE>>,
  workspace_folders            |-> <<"workspace/workspaceFolders", "req", FALSE>>,
  apply_edit                   |-> <<"workspace/applyEdit", "req", FALSE>>,
  send_request                 |-> <<"custom/askNumber", "req", FALSE>>,
  show_message                 |-> <<"window/showMessage", "note", TRUE>>,
  log_message                  |-> <<"window/logMessage", "note", TRUE>>,
  telemetry_event              |-> <<"telemetry/event", "note", TRUE>>,
  publish_diagnostics          |-> <<"textDocument/publishDiagnostics", "note", FALSE>>,
  send_notification            |-> <<"custom/notify", "note", FALSE>> ]
Functions == DOMAIN Api
Kind(f) == Api[f][2]

Init == life = "uninit" /\ open = "-" /\ ev = [a |-> "start"]

\* What becomes of a call to `f` now.
Fate(f) ==
  CASE life = "exit"                            -> IF Kind(f) = "req" THEN "e" ELSE "dropped"
    [] life \in {"init", "shut"} \/ Api[f][3]   -> "sent"
    [] OTHER                                    -> IF Kind(f) = "req" THEN "e-32002" ELSE "dropped"

\* Requests do not overlap here.
Call(f) ==
  /\ (Kind(f) = "req" /\ Fate(f) = "sent") => open = "-"
  /\ open' = IF Kind(f) = "req" /\ Fate(f) = "sent" THEN f ELSE open
  /\ ev' = [a |-> "call", f |-> f, m |-> Api[f][1], kind |-> Kind(f), fate |-> Fate(f),
            sf |-> {"P11"}, sc |-> IF Fate(f) = "sent" THEN {"P20", "P11"} ELSE {"P11"}]
  /\ UNCHANGED life

\* The client replies: with a result, a result in another shape that is fine, an error,
\* something that is not what the method returns.
Reply(r) ==
  /\ open # "-"
  /\ open' = "-"
  /\ ev' = [a |-> "reply", f |-> open, r |-> r, got |-> (CASE r \in {"ok", "alt"} -> "ok" [] r = "err" -> "err" [] OTHER -> "e"),
            sc |-> {"P20"}]
  /\ UNCHANGED life

\* The caller gives up.
Abandon ==
  /\ open # "-"
  /\ open' = "-"
  /\ ev' = [a |-> "abandon", sc |-> {"P20"}]
  /\ UNCHANGED life

Live(a, from, to) ==
  /\ life \in from
  /\ life' = to
  /\ open' = IF a = "exit" THEN "-" ELSE open
  /\ ev' = [a |-> a, sc |-> {"P11"}]

Next ==
  \/ \E f \in Functions : Call(f)
  \/ \E r \in {"ok", "alt", "err", "bad"} : Reply(r)
  \/ Abandon
  \/ Live("initialize", {"uninit"}, "initing")
  \/ Live("failed", {"initing"}, "uninit")
  \/ Live("initialized", {"initing"}, "init")
  \/ Live("shutdown", {"init"}, "shut")
  \/ Live("exit", {"uninit", "initing", "init", "shut"}, "exit")

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* P11
Gate == [][ev'.a = "call" =>
            /\ life = "exit" => ev'.fate \in {"e", "dropped"}
            /\ life \in {"init", "shut"} => ev'.fate = "sent"
            /\ (life \in {"uninit", "initing"} /\ ev'.f \notin {"show_message_request", "show_message", "log_message", "telemetry_event"})
                 => ev'.fate \in {"e-32002", "dropped"}]_vars
\* P20: nothing is returned that the client did not say, notifications never wait
Waits == open # "-" => Kind(open) = "req"
ASSUME \A f, g \in Functions : Api[f][1] = Api[g][1] => f = g

Emit == PrintT(<<"EDGE", ToJson([f |-> ToString(view), e |-> ev', t |-> ToString(view')])>>)
EmitSim == PrintT(<<"SIM", ToJson([l |-> TLCGet("level"), e |-> ev])>>)
=============================================================================
