------------------------------ MODULE Dispatch ------------------------------
(***************************************************************************)
(* Which handler a message reaches, and what comes back, in the            *)
(* initialized state.  The tables are those of the Language Server         *)
(* Protocol 3.17: every method of the `LanguageServer` trait with the kind *)
(* of message it is, plus custom methods of every signature, including     *)
(* ones whose names are taken already.                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

VARIABLES
  srv,    \* which server is running: "none" yet, "full", "default" or "boxed"
  n,      \* messages handled, up to Bound: order must not matter
  ev

CONSTANT Bound
vars == <<srv, n, ev>>
view == <<srv, n>>

\* <<method, handler>>
Requests == {
  <<"textDocument/willSaveWaitUntil", "will_save_wait_until">>,
  <<"textDocument/declaration", "goto_declaration">>,
  <<"textDocument/definition", "goto_definition">>,
  <<"textDocument/typeDefinition", "goto_type_definition">>,
  <<"textDocument/implementation", "goto_implementation">>,
  <<"textDocument/references", "references">>,
  <<"textDocument/prepareCallHierarchy", "prepare_call_hierarchy">>,
  <<"callHierarchy/incomingCalls", "incoming_calls">>,
  <<"callHierarchy/outgoingCalls", "outgoing_calls">>,
  <<"textDocument/prepareTypeHierarchy", "prepare_type_hierarchy">>,
  <<"typeHierarchy/supertypes", "supertypes">>,
  <<"typeHierarchy/subtypes", "subtypes">>,
  <<"textDocument/documentHighlight", "document_highlight">>,
  <<"textDocument/documentLink", "document_link">>,
  <<"documentLink/resolve", "document_link_resolve">>,
  <<"textDocument/hover", "hover">>,
  <<"textDocument/codeLens", "code_lens">>,
  <<"codeLens/resolve", "code_lens_resolve">>,
  <<"textDocument/foldingRange", "folding_range">>,
  <<"textDocument/selectionRange", "selection_range">>,
  <<"textDocument/documentSymbol", "document_symbol">>,
  <<"textDocument/semanticTokens/full", "semantic_tokens_full">>,
  <<"textDocument/semanticTokens/full/delta", "semantic_tokens_full_delta">>,
  <<"textDocument/semanticTokens/range", "semantic_tokens_range">>,
  <<"textDocument/inlineValue", "inline_value">>,
  <<"textDocument/inlayHint", "inlay_hint">>,
  <<"inlayHint/resolve", "inlay_hint_resolve">>,
  <<"textDocument/moniker", "moniker">>,
  <<"textDocument/completion", "completion">>,
  <<"completionItem/resolve", "completion_resolve">>,
  <<"textDocument/diagnostic", "diagnostic">>,
  <<"workspace/diagnostic", "workspace_diagnostic">>,
  <<"textDocument/signatureHelp", "signature_help">>,
  <<"textDocument/codeAction", "code_action">>,
  <<"codeAction/resolve", "code_action_resolve">>,
  <<"textDocument/documentColor", "document_color">>,
  <<"textDocument/colorPresentation", "color_presentation">>,
  <<"textDocument/formatting", "formatting">>,
  <<"textDocument/rangeFormatting", "range_formatting">>,
  <<"textDocument/onTypeFormatting", "on_type_formatting">>,
  <<"textDocument/rename", "rename">>,
  <<"textDocument/prepareRename", "prepare_rename">>,
  <<"textDocument/linkedEditingRange", "linked_editing_range">>,
  <<"workspace/symbol", "symbol">>,
  <<"workspaceSymbol/resolve", "symbol_resolve">>,
  <<"workspace/willCreateFiles", "will_create_files">>,
  <<"workspace/willRenameFiles", "will_rename_files">>,
  <<"workspace/willDeleteFiles", "will_delete_files">>,
  <<"workspace/executeCommand", "execute_command">> }

Notifications == {
  <<"initialized", "initialized">>,
  <<"textDocument/didOpen", "did_open">>,
  <<"textDocument/didChange", "did_change">>,
  <<"textDocument/willSave", "will_save">>,
  <<"textDocument/didSave", "did_save">>,
  <<"textDocument/didClose", "did_close">>,
  <<"workspace/didChangeConfiguration", "did_change_configuration">>,
  <<"workspace/didChangeWorkspaceFolders", "did_change_workspace_folders">>,
  <<"workspace/didCreateFiles", "did_create_files">>,
  <<"workspace/didRenameFiles", "did_rename_files">>,
  <<"workspace/didDeleteFiles", "did_delete_files">>,
  <<"workspace/didChangeWatchedFiles", "did_change_watched_files">> }

\* custom methods of the "full" server: <<method, handler, kind, params>>
Customs == {
  <<"custom/request",         "c_request",  "req",  "none">>,
  <<"custom/requestParams",   "c_params",   "req",  "obj">>,
  <<"custom/requestOption",   "c_option",   "req",  "opt">>,
  <<"custom/requestArray",    "c_array",    "req",  "arr">>,
  <<"custom/requestList",     "c_list",     "req",  "lst">>,
  <<"custom/requestAny",      "c_any",      "req",  "val">>,
  <<"custom/note",            "c_note",     "note", "none">>,
  <<"custom/noteParams",      "c_nparams",  "note", "obj">>,
  <<"custom/closure",         "c_closure",  "req",  "obj">>,
  \* its results cannot be expressed in JSON
  <<"custom/unprintable",     "c_unprintable", "req", "none">>,
  <<"$/custom",               "c_dollar",   "req",  "obj">>,
  \* registered twice: the first registration stays
  <<"custom/twice",           "c_first",    "req",  "obj">> }

Builtin == {[m |-> x[1], h |-> x[2], k |-> "req",  p |-> "obj"] : x \in Requests}
      \cup {[m |-> x[1], h |-> x[2], k |-> "note", p |-> IF x[1] = "initialized" THEN "any" ELSE "obj"] : x \in Notifications}
Custom  == {[m |-> x[1], h |-> x[2], k |-> x[3], p |-> x[4]] : x \in Customs}
Unknown == {[m |-> m, h |-> "-", k |-> "unknown", p |-> "-"] :
             m \in {"no/such", "textDocument/Hover", "textDocument/hover ", "textDocument", "hover", "textDocument/hoverX", "INITIALIZED"}}

\* Names that differ a little from those of known methods.
Alters == {"slash", "space", "upper", "lower", "lead", "prefix", "cut", "nul", "dot", "dollar"}

\* Shapes of `params`; "empty" is an object without members, "extra" a proper
\* object with an unknown member, "wrapped" an array with the proper params.
Shapes == {"absent", "null", "valid", "extra", "empty", "scalar", "bad", "wrapped"}

\* Can a method whose parameters are of class `p` decode params of shape `s`?
Decodes(p, s) ==
  CASE p = "none" -> s = "absent"
    [] p = "obj"  -> s \in {"valid", "extra"}
    [] p = "any"  -> s \in {"valid", "extra", "empty"}
    [] p = "opt"  -> s \in {"valid", "extra", "null"}
    [] p = "arr"  -> s = "valid"
    [] p = "lst"  -> s \in {"valid", "wrapped"}
    [] p = "val"  -> s # "absent"

\* Shapes that make sense for a class; the rest is covered by others.
Apply(p, s) ==
  CASE p = "none" -> s \notin {"extra", "bad", "null", "wrapped"}   \* null is neither absent nor a value
    [] p \in {"arr", "lst"} -> s # "extra"
    [] p = "any"  -> s \notin {"bad", "wrapped"}
    [] p = "-"    -> s \in {"absent", "valid", "scalar"}
    [] OTHER      -> TRUE

\* The id of the message: absent for a notification.
IdKinds == {"absent", "num", "str", "null"}

\* What the handler returns, when it is a request handler that runs.
Outs == {"ok", "err"}

\* The methods a server implements.
Implemented(s) == CASE s = "full" -> Builtin \cup Custom
                    [] s = "boxed" -> Builtin
                    [] s = "default" -> {}
Known(s)       == IF s = "full" THEN Builtin \cup Custom ELSE Builtin

\* Expected <<handler run, response>>
Expect(s, x, id, shape, out, alt) ==
  CASE alt = "dollar"                      -> <<"-", "none">>
    [] x.k = "unknown" \/ alt # "-"        -> <<"-", IF id = "absent" THEN "none" ELSE "e-32601">>
    [] x.k = "note" /\ id # "absent"       -> <<"-", "e-32600">>
    [] x.k = "req"  /\ id = "absent"       -> <<"-", "none">>
    [] ~Decodes(x.p, shape)                -> <<"-", IF id = "absent" THEN "none"
                                                     ELSE IF x \in Implemented(s) THEN "e-32602" ELSE "e">>
    [] x \notin Implemented(s)             -> <<"-", IF id = "absent" THEN "none" ELSE "e-32601">>
    [] x.k = "note"                        -> <<x.h, "none">>
    [] x.h = "c_unprintable" /\ out = "ok" -> <<x.h, "e-32603">>
    [] OTHER                               -> <<x.h, out>>

Init == srv = "none" /\ n = 0 /\ ev = [a |-> "start"]

Choose(s) ==
  /\ srv = "none"
  /\ srv' = s
  /\ ev' = [a |-> "choose", m |-> s, sc |-> {"P08"}]
  /\ UNCHANGED n

Send(x, id, shape, out, alt) ==
  /\ srv # "none"
  /\ Apply(x.p, shape)
  /\ alt # "-" => x.k # "unknown" /\ <<x.m, alt>> # <<"initialized", "cut">> /\ x.m # "$/custom" /\ shape = "valid" /\ id \in {"absent", "num"} /\ n = 0
  /\ LET e == Expect(srv, x, id, shape, out, alt) IN
       /\ (out = "err" => e[2] = "err")     \* `out` matters only when a request handler runs
       /\ ev' = [a |-> "send", m |-> x.m, alt |-> alt, k |-> IF alt = "-" THEN x.k ELSE "unknown", p |-> x.p, id |-> id, shape |-> shape,
                 h |-> e[1], r |-> e[2], sc |-> {"P08", "P05"}]
  /\ n' = (n + 1) % (Bound + 1)
  /\ UNCHANGED srv

Next ==
  \/ \E s \in {"full", "default", "boxed"} : Choose(s)
  \/ \E x \in Known(srv) \cup Unknown, id \in IdKinds, shape \in Shapes, out \in Outs, alt \in Alters \cup {"-"} :
       Send(x, id, shape, out, alt)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* The tables are functions: no method has two handlers, and no handler serves two methods.
Tables ==
  LET All == Builtin \cup Custom IN
  /\ \A x, y \in All : (x.m = y.m \/ x.h = y.h) => x = y
  /\ Cardinality(Requests) = 49 /\ Cardinality(Notifications) = 12
ASSUME Tables

\* A handler never runs for a message it cannot decode or whose kind is wrong.
RunsOnlyWhenRight ==
  [][(ev'.a = "send" /\ ev'.h # "-") =>
       /\ ev'.k \in {"req", "note"}
       /\ (ev'.k = "req") <=> (ev'.id # "absent")
       /\ Decodes(ev'.p, ev'.shape)]_vars
\* Exactly one response per request, none per notification.
Answers == [][ev'.a = "send" /\ ev'.alt # "dollar" => ((ev'.r = "none") <=> (ev'.id = "absent"))]_vars

Key == ToString(<<srv, n>>)
Emit == PrintT(<<"EDGE", ToJson([f |-> Key, e |-> ev', t |-> ToString(<<srv', n'>>)])>>)
=============================================================================
