//! Replays the transitions of `Dispatch.tla`: every message shape on servers that implement
//! every method of the trait, none of them, or every method behind a trait object.

use std::sync::{Arc, Mutex};
use std::task::Poll;

use futures::future::BoxFuture;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use tower::Service;
use tower_lsp::jsonrpc::{Error, ErrorCode, Id, Request, Response, Result};
use tower_lsp::lsp_types::*;
use tower_lsp::{ExitedError, LanguageServer, LspService};

use crate::exec::{Rng, Task};
use crate::graph::{Fail, World};

#[derive(Default)]
struct Board {
    /// Handlers that ran, with the params they were given.
    log: Vec<(&'static str, Value)>,
    /// What the next request handler returns.
    next: Option<std::result::Result<Value, Error>>,
}

#[derive(Clone, Default)]
struct Full(Arc<Mutex<Board>>);

impl Full {
    fn hit(&self, name: &'static str, params: &impl Serialize) {
        self.0.lock().unwrap().log.push((name, serde_json::to_value(params).unwrap()));
    }
    fn result<R: DeserializeOwned>(&self) -> Result<R> {
        let next = self.0.lock().unwrap().next.clone().unwrap_or(Ok(Value::Null));
        next.map(|v| serde_json::from_value(v).expect("bad sample result"))
    }
    async fn c_request(&self) -> Result<Value> {
        self.hit("c_request", &());
        self.result()
    }
    async fn c_unprintable(&self) -> Result<std::collections::BTreeMap<(i64, i64), i64>> {
        self.hit("c_unprintable", &());
        self.result::<Value>().map(|_| [((1, 2), 3)].into())
    }
    async fn c_params(&self, p: Value3) -> Result<Value> {
        self.hit("c_params", &p);
        self.result()
    }
    async fn c_option(&self, p: Option<Value3>) -> Result<Option<Value3>> {
        self.hit("c_option", &p);
        self.result()
    }
    async fn c_array(&self, p: (i64, String)) -> Result<Vec<i64>> {
        self.hit("c_array", &p);
        self.result()
    }
    async fn c_list(&self, p: Vec<Value>) -> Result<Value> {
        self.hit("c_list", &p);
        self.result()
    }
    async fn c_any(&self, p: Value) -> Result<Value> {
        self.hit("c_any", &p);
        self.result()
    }
    async fn c_note(&self) {
        self.hit("c_note", &());
    }
    async fn c_nparams(&self, p: Value3) {
        self.hit("c_nparams", &p);
    }
    async fn c_dollar(&self, p: Value3) -> Result<Value> {
        self.hit("c_dollar", &p);
        self.result()
    }
    async fn c_first(&self, p: Value3) -> Result<Value> {
        self.hit("c_first", &p);
        self.result()
    }
    async fn c_second(&self, p: Value3) -> Result<Value> {
        self.hit("c_second", &p);
        self.result()
    }
    async fn c_stolen(&self, p: Value) -> Result<Value> {
        self.hit("c_stolen", &p);
        self.result()
    }
    async fn c_stolen_note(&self, p: Value) {
        self.hit("c_stolen_note", &p);
    }
}

#[derive(serde::Serialize, serde::Deserialize)]
struct Value3 {
    tag: i64,
    #[serde(default)]
    deep: Value,
}

type Normalize = fn(Value) -> Value;

fn norm<P: DeserializeOwned + Serialize>(v: Value) -> Value {
    let p: P = serde_json::from_value(v.clone()).unwrap_or_else(|e| panic!("bad sample {v}: {e}"));
    serde_json::to_value(p).unwrap()
}

macro_rules! server {
    ($($kind:ident $f:ident: $p:ty $(=> $r:ty)?;)*) => {
        #[tower_lsp::async_trait]
        impl LanguageServer for Full {
            async fn initialize(&self, p: InitializeParams) -> Result<InitializeResult> {
                self.hit("initialize", &p);
                self.result()
            }
            async fn shutdown(&self) -> Result<()> {
                self.hit("shutdown", &());
                Ok(())
            }
            $(server!(@ $kind $f $p $(, $r)?);)*
        }
        /// How the params and the result of a handler look after a round trip through their types.
        fn types(handler: &str) -> (Normalize, Normalize) {
            match handler {
                $(stringify!($f) => server!(@types $p $(, $r)?),)*
                "c_option" => (norm::<Option<Value3>>, norm::<Option<Value3>>),
                "c_array" => (norm::<(i64, String)>, norm::<Vec<i64>>),
                "c_list" => (norm::<Vec<Value>>, norm::<Value>),
                "c_any" => (norm::<Value>, norm::<Value>),
                "c_request" | "c_note" | "c_unprintable" => (|_| Value::Null, norm::<Value>),
                _ => (norm::<Value3>, norm::<Value>),
            }
        }
    };
    (@ req $f:ident $p:ty, $r:ty) => {
        // What `async_trait` expands to; it does not look into macros.
        fn $f<'life0, 'async_trait>(&'life0 self, p: $p) -> BoxFuture<'async_trait, Result<$r>>
        where
            'life0: 'async_trait,
            Self: 'async_trait,
        {
            Box::pin(async move {
                self.hit(stringify!($f), &p);
                self.result()
            })
        }
    };
    (@ note $f:ident $p:ty) => {
        fn $f<'life0, 'async_trait>(&'life0 self, p: $p) -> BoxFuture<'async_trait, ()>
        where
            'life0: 'async_trait,
            Self: 'async_trait,
        {
            Box::pin(async move { self.hit(stringify!($f), &p) })
        }
    };
    (@types $p:ty, $r:ty) => { (norm::<$p>, norm::<$r>) };
    (@types $p:ty) => { (norm::<$p>, norm::<Value>) };
}

use tower_lsp::lsp_types::request::{
    GotoDeclarationParams, GotoDeclarationResponse, GotoImplementationParams, GotoImplementationResponse,
    GotoTypeDefinitionParams, GotoTypeDefinitionResponse,
};

server! {
    note initialized: InitializedParams;
    note did_open: DidOpenTextDocumentParams;
    note did_change: DidChangeTextDocumentParams;
    note will_save: WillSaveTextDocumentParams;
    req will_save_wait_until: WillSaveTextDocumentParams => Option<Vec<TextEdit>>;
    note did_save: DidSaveTextDocumentParams;
    note did_close: DidCloseTextDocumentParams;
    req goto_declaration: GotoDeclarationParams => Option<GotoDeclarationResponse>;
    req goto_definition: GotoDefinitionParams => Option<GotoDefinitionResponse>;
    req goto_type_definition: GotoTypeDefinitionParams => Option<GotoTypeDefinitionResponse>;
    req goto_implementation: GotoImplementationParams => Option<GotoImplementationResponse>;
    req references: ReferenceParams => Option<Vec<Location>>;
    req prepare_call_hierarchy: CallHierarchyPrepareParams => Option<Vec<CallHierarchyItem>>;
    req incoming_calls: CallHierarchyIncomingCallsParams => Option<Vec<CallHierarchyIncomingCall>>;
    req outgoing_calls: CallHierarchyOutgoingCallsParams => Option<Vec<CallHierarchyOutgoingCall>>;
    req prepare_type_hierarchy: TypeHierarchyPrepareParams => Option<Vec<TypeHierarchyItem>>;
    req supertypes: TypeHierarchySupertypesParams => Option<Vec<TypeHierarchyItem>>;
    req subtypes: TypeHierarchySubtypesParams => Option<Vec<TypeHierarchyItem>>;
    req document_highlight: DocumentHighlightParams => Option<Vec<DocumentHighlight>>;
    req document_link: DocumentLinkParams => Option<Vec<DocumentLink>>;
    req document_link_resolve: DocumentLink => DocumentLink;
    req hover: HoverParams => Option<Hover>;
    req code_lens: CodeLensParams => Option<Vec<CodeLens>>;
    req code_lens_resolve: CodeLens => CodeLens;
    req folding_range: FoldingRangeParams => Option<Vec<FoldingRange>>;
    req selection_range: SelectionRangeParams => Option<Vec<SelectionRange>>;
    req document_symbol: DocumentSymbolParams => Option<DocumentSymbolResponse>;
    req semantic_tokens_full: SemanticTokensParams => Option<SemanticTokensResult>;
    req semantic_tokens_full_delta: SemanticTokensDeltaParams => Option<SemanticTokensFullDeltaResult>;
    req semantic_tokens_range: SemanticTokensRangeParams => Option<SemanticTokensRangeResult>;
    req inline_value: InlineValueParams => Option<Vec<InlineValue>>;
    req inlay_hint: InlayHintParams => Option<Vec<InlayHint>>;
    req inlay_hint_resolve: InlayHint => InlayHint;
    req moniker: MonikerParams => Option<Vec<Moniker>>;
    req completion: CompletionParams => Option<CompletionResponse>;
    req completion_resolve: CompletionItem => CompletionItem;
    req diagnostic: DocumentDiagnosticParams => DocumentDiagnosticReportResult;
    req workspace_diagnostic: WorkspaceDiagnosticParams => WorkspaceDiagnosticReportResult;
    req signature_help: SignatureHelpParams => Option<SignatureHelp>;
    req code_action: CodeActionParams => Option<CodeActionResponse>;
    req code_action_resolve: CodeAction => CodeAction;
    req document_color: DocumentColorParams => Vec<ColorInformation>;
    req color_presentation: ColorPresentationParams => Vec<ColorPresentation>;
    req formatting: DocumentFormattingParams => Option<Vec<TextEdit>>;
    req range_formatting: DocumentRangeFormattingParams => Option<Vec<TextEdit>>;
    req on_type_formatting: DocumentOnTypeFormattingParams => Option<Vec<TextEdit>>;
    req rename: RenameParams => Option<WorkspaceEdit>;
    req prepare_rename: TextDocumentPositionParams => Option<PrepareRenameResponse>;
    req linked_editing_range: LinkedEditingRangeParams => Option<LinkedEditingRanges>;
    req symbol: WorkspaceSymbolParams => Option<Vec<SymbolInformation>>;
    req symbol_resolve: WorkspaceSymbol => WorkspaceSymbol;
    note did_change_configuration: DidChangeConfigurationParams;
    note did_change_workspace_folders: DidChangeWorkspaceFoldersParams;
    req will_create_files: CreateFilesParams => Option<WorkspaceEdit>;
    note did_create_files: CreateFilesParams;
    req will_rename_files: RenameFilesParams => Option<WorkspaceEdit>;
    note did_rename_files: RenameFilesParams;
    req will_delete_files: DeleteFilesParams => Option<WorkspaceEdit>;
    note did_delete_files: DeleteFilesParams;
    note did_change_watched_files: DidChangeWatchedFilesParams;
    req execute_command: ExecuteCommandParams => Option<Value>;
}

/// The bare minimum of a server.
struct Bare(Full);

#[tower_lsp::async_trait]
impl LanguageServer for Bare {
    async fn initialize(&self, p: InitializeParams) -> Result<InitializeResult> {
        self.0.initialize(p).await
    }
    async fn shutdown(&self) -> Result<()> {
        Ok(())
    }
}

/// Sample params of a method and a sample result, both carrying `tag`.
fn sample(m: &str, t: i64) -> (Value, Value) {
    let uri = format!("file:///t/{t}");
    let doc = json!({"uri": uri});
    let pos = json!({"line": t, "character": 7});
    let range = json!({"start": {"line": t, "character": 1}, "end": {"line": t + 1, "character": 2}});
    let at = json!({"textDocument": doc, "position": pos});
    let in_doc = json!({"textDocument": doc});
    let ranged = json!({"textDocument": doc, "range": range});
    let loc = json!({"uri": uri, "range": range});
    let edits = json!([{"range": range, "newText": format!("new {t}")}]);
    let ws_edit = json!({"changes": {"file:///w": edits}});
    let opts = json!({"tabSize": 4, "insertSpaces": true});
    let th = json!({"name": format!("n{t}"), "kind": 5, "uri": uri, "range": range, "selectionRange": range});
    let ch = th.clone();
    let tokens = json!({"resultId": format!("r{t}"), "data": [1, 2, 3, 4, 5]});
    let files = json!({"files": [{"uri": uri}]});
    let null = Value::Null;
    let item = json!({"label": format!("l{t}")});
    let resolve = |v: Value| (v.clone(), v);
    match m {
        "initialize" => (json!({"processId": 1, "capabilities": {}, "rootUri": uri}), json!({"capabilities": {}, "serverInfo": {"name": uri}})),
        "initialized" => (json!({}), null),
        "textDocument/didOpen" => (json!({"textDocument": {"uri": uri, "languageId": "x", "version": t, "text": "é𝄞"}}), null),
        "textDocument/didChange" => (json!({"textDocument": {"uri": uri, "version": t}, "contentChanges": [{"range": range, "text": "x"}, {"text": "y"}]}), null),
        "textDocument/willSave" => (json!({"textDocument": doc, "reason": 2}), null),
        "textDocument/willSaveWaitUntil" => (json!({"textDocument": doc, "reason": 3}), edits),
        "textDocument/didSave" => (json!({"textDocument": doc, "text": "abc"}), null),
        "textDocument/didClose" => (in_doc, null),
        "textDocument/declaration" | "textDocument/definition" | "textDocument/typeDefinition" | "textDocument/implementation" => (at, json!([loc])),
        "textDocument/references" => (json!({"textDocument": doc, "position": pos, "context": {"includeDeclaration": true}}), json!([loc, loc])),
        "textDocument/prepareCallHierarchy" => (at, json!([ch])),
        "callHierarchy/incomingCalls" => (json!({"item": ch}), json!([{"from": ch, "fromRanges": [range]}])),
        "callHierarchy/outgoingCalls" => (json!({"item": ch}), json!([{"to": ch, "fromRanges": [range]}])),
        "textDocument/prepareTypeHierarchy" => (at, json!([th])),
        "typeHierarchy/supertypes" | "typeHierarchy/subtypes" => (json!({"item": th}), json!([th])),
        "textDocument/documentHighlight" => (at, json!([{"range": range, "kind": 1}])),
        "textDocument/documentLink" => (in_doc, json!([{"range": range, "target": uri}])),
        "documentLink/resolve" => resolve(json!({"range": range, "target": uri})),
        "textDocument/hover" => (at, json!({"contents": format!("h{t}"), "range": range})),
        "textDocument/codeLens" => (in_doc, json!([{"range": range}])),
        "codeLens/resolve" => resolve(json!({"range": range, "data": {"t": t}})),
        "textDocument/foldingRange" => (in_doc, json!([{"startLine": t, "endLine": t + 1}])),
        "textDocument/selectionRange" => (json!({"textDocument": doc, "positions": [pos, pos]}), json!([{"range": range, "parent": {"range": range}}])),
        "textDocument/documentSymbol" => (in_doc, json!([{"name": "x", "kind": 2, "location": loc}])),
        "textDocument/semanticTokens/full" => (in_doc, tokens),
        "textDocument/semanticTokens/full/delta" => (json!({"textDocument": doc, "previousResultId": format!("p{t}")}), json!({"resultId": "d", "edits": [{"start": t, "deleteCount": 1}]})),
        "textDocument/semanticTokens/range" => (ranged, tokens),
        "textDocument/inlineValue" => (json!({"textDocument": doc, "range": range, "context": {"frameId": t, "stoppedLocation": range}}), json!([{"range": range, "text": "v"}])),
        "textDocument/inlayHint" => (ranged, json!([{"position": pos, "label": "hint"}])),
        "inlayHint/resolve" => resolve(json!({"position": pos, "label": format!("l{t}")})),
        "textDocument/moniker" => (at, json!([{"scheme": "s", "identifier": format!("i{t}"), "unique": "global"}])),
        "textDocument/completion" => (at, json!({"isIncomplete": true, "items": [item]})),
        "completionItem/resolve" => resolve(item),
        "textDocument/diagnostic" => (json!({"textDocument": doc, "identifier": format!("i{t}")}), json!({"kind": "full", "resultId": "r", "items": []})),
        "workspace/diagnostic" => (json!({"previousResultIds": [{"uri": uri, "value": "v"}]}), json!({"items": [{"kind": "unchanged", "uri": uri, "version": 1, "resultId": "x"}]})),
        "textDocument/signatureHelp" => (at, json!({"signatures": [{"label": format!("s{t}")}], "activeSignature": 0})),
        "textDocument/codeAction" => (json!({"textDocument": doc, "range": range, "context": {"diagnostics": []}}), json!([{"title": format!("a{t}")}, {"title": "c", "command": "x"}])),
        "codeAction/resolve" => resolve(json!({"title": format!("a{t}"), "kind": "quickfix"})),
        "textDocument/documentColor" => (in_doc, json!([{"range": range, "color": {"red": 0.5, "green": 0.25, "blue": 0.0, "alpha": 1.0}}])),
        "textDocument/colorPresentation" => (json!({"textDocument": doc, "range": range, "color": {"red": 0.5, "green": 0.25, "blue": 0.0, "alpha": 1.0}}), json!([{"label": format!("c{t}")}])),
        "textDocument/formatting" => (json!({"textDocument": doc, "options": opts}), edits),
        "textDocument/rangeFormatting" => (json!({"textDocument": doc, "range": range, "options": opts}), edits),
        "textDocument/onTypeFormatting" => (json!({"textDocument": doc, "position": pos, "ch": "}", "options": opts}), edits),
        "textDocument/rename" => (json!({"textDocument": doc, "position": pos, "newName": format!("n{t}")}), ws_edit),
        "textDocument/prepareRename" => (at, range),
        "textDocument/linkedEditingRange" => (at, json!({"ranges": [range], "wordPattern": "w"})),
        "workspace/symbol" => (json!({"query": format!("q{t}")}), json!([{"name": "x", "kind": 2, "location": loc}])),
        "workspaceSymbol/resolve" => resolve(json!({"name": format!("s{t}"), "kind": 3, "location": loc})),
        "workspace/didChangeConfiguration" => (json!({"settings": {"a": [t, null]}}), null),
        "workspace/didChangeWorkspaceFolders" => (json!({"event": {"added": [{"uri": uri, "name": "n"}], "removed": []}}), null),
        "workspace/willCreateFiles" | "workspace/willDeleteFiles" => (files, ws_edit),
        "workspace/didCreateFiles" | "workspace/didDeleteFiles" => (files, null),
        "workspace/willRenameFiles" => (json!({"files": [{"oldUri": uri, "newUri": "file:///new"}]}), ws_edit),
        "workspace/didRenameFiles" => (json!({"files": [{"oldUri": uri, "newUri": "file:///new"}]}), null),
        "workspace/didChangeWatchedFiles" => (json!({"changes": [{"uri": uri, "type": 2}]}), null),
        "workspace/executeCommand" => (json!({"command": format!("c{t}"), "arguments": [t, {"x": null}]}), json!({"any": [t, 1.5, "é", null]})),
        "custom/requestArray" => (json!([t, "second"]), json!([t, 2, 3])),
        "custom/requestOption" => (json!({"tag": t, "deep": {"a": [1]}}), json!({"tag": t + 1, "deep": null})),
        _ => (json!({"tag": t, "deep": {"null": null, "list": [1, "2", -3.5]}}), json!({"result": [t, {"deep": "é"}]})),
    }
}

/// Breaks the first member that any method with these params needs.
fn broken(valid: &Value) -> Value {
    let mut v = valid.clone();
    for key in ["textDocument", "item", "position", "range", "label", "title", "query", "name", "files", "command",
                "changes", "event", "tag", "previousResultIds"] {
        if let Some(x) = v.get_mut(key) {
            *x = json!({"broken": [true]});
            return v;
        }
    }
    if v.get("settings").is_some() { json!({"setting": 1}) } else { json!({"tag": {}}) }
}

enum Server {
    None,
    Full(LspService<Full>),
    Bare(LspService<Bare>),
    Boxed(LspService<Box<dyn LanguageServer>>),
}

pub struct Dispatch {
    board: Full,
    server: Server,
    sockets: Vec<tower_lsp::ClientSocket>,
    tag: i64,
    which: String,
}

type Answer = std::result::Result<Option<Response>, ExitedError>;

impl Dispatch {
    fn call(&mut self, req: Request) -> std::result::Result<Option<Response>, String> {
        let mut task: Task<Answer> = match &mut self.server {
            Server::Full(s) => Task::new(s.call(req)),
            Server::Bare(s) => Task::new(s.call(req)),
            Server::Boxed(s) => Task::new(s.call(req)),
            Server::None => panic!("no server"),
        };
        match task.settle() {
            Poll::Ready(Ok(r)) => Ok(r),
            Poll::Ready(Err(_)) => Err("exited".into()),
            Poll::Pending => Err("no answer".into()),
        }
    }

    fn choose(&mut self, which: &str, rng: &mut Rng) -> std::result::Result<(), Vec<Fail>> {
        self.which = which.into();
        let b = self.board.clone();
        let socket;
        (self.server, socket) = match which {
            "full" => {
                let closure = |s: &Full, p: Value3| {
                    s.hit("c_closure", &p);
                    std::future::ready(s.result::<Value>())
                };
                let (s, sock) = LspService::build(move |_| b)
                    .custom_method("textDocument/hover", Full::c_stolen)
                    .custom_method("custom/twice", Full::c_first)
                    .custom_method("initialized", Full::c_stolen_note)
                    .custom_method("custom/request", Full::c_request)
                    .custom_method("custom/unprintable", Full::c_unprintable)
                    .custom_method("custom/requestParams", Full::c_params)
                    .custom_method("custom/requestOption", Full::c_option)
                    .custom_method("custom/requestArray", Full::c_array)
                    .custom_method("custom/requestList", Full::c_list)
                    .custom_method("custom/requestAny", Full::c_any)
                    .custom_method("custom/note", Full::c_note)
                    .custom_method("custom/noteParams", Full::c_nparams)
                    .custom_method("custom/closure", closure)
                    .custom_method("$/custom", Full::c_dollar)
                    .custom_method("custom/twice", Full::c_second)
                    .custom_method("textDocument/didSave", Full::c_stolen)
                    .custom_method("initialize", Full::c_stolen)
                    .custom_method("workspaceSymbol/resolve", Full::c_stolen_note)
                    .finish();
                (Server::Full(s), sock)
            }
            "default" => {
                let (s, sock) = LspService::new(move |_| Bare(b));
                (Server::Bare(s), sock)
            }
            "boxed" => {
                let (s, sock) = LspService::new(move |_| Box::new(b) as Box<dyn LanguageServer>);
                (Server::Boxed(s), sock)
            }
            other => panic!("unknown server {other}"),
        };
        self.sockets.push(socket);
        // Bring it to the initialized state.
        let (p, r) = sample("initialize", rng.below(1000) as i64);
        self.board.0.lock().unwrap().next = Some(Ok(r.clone()));
        let req = Request::build("initialize").id(-5).params(p.clone()).finish();
        let res = self.call(req);
        let log = std::mem::take(&mut self.board.0.lock().unwrap().log);
        let seen = norm::<InitializeParams>(p);
        if log.len() != 1 || log[0].0 != "initialize" || log[0].1 != seen {
            return Err(vec![format!("initialize: handlers ran: {log:?}").into()]);
        }
        match res {
            Ok(Some(res)) if *res.id() == Id::Number(-5) && res.result() == Some(&r) => Ok(()),
            other => Err(vec![format!("initialize answered with {other:?}").into()]),
        }
    }
}

impl World for Dispatch {
    fn new(_: &mut Rng) -> Self {
        Dispatch { board: Full::default(), server: Server::None, sockets: vec![], tag: 0, which: String::new() }
    }

    fn describe(&self) -> Value {
        json!({"server": self.which})
    }

    fn step(&mut self, ev: &Value, rng: &mut Rng) -> std::result::Result<(), Vec<Fail>> {
        let m = ev["m"].as_str().unwrap();
        if ev["a"] == "choose" {
            return self.choose(m, rng);
        }
        self.tag += 1 + rng.below(1000) as i64;
        let (mut params, result) = sample(m, self.tag);
        if m == "custom/requestList" {
            params = rng.pick(&[json!([]), json!([{"x": 1}]), json!([[self.tag]]), json!([null]), json!([self.tag, [], {}])]).clone();
        } else if m == "custom/requestAny" {
            params = rng.pick(&[json!([]), json!({}), json!([{"x": 1}]), json!([[]]), json!(self.tag), json!([null]), json!("é"), json!(false)]).clone();
        }
        let sent = match ev["shape"].as_str().unwrap() {
            "absent" => None,
            "null" => Some(Value::Null),
            "valid" => Some(params),
            "extra" => {
                let mut p = if params.is_object() { params } else { json!({"x": params}) };
                p["unknown member"] = json!({"x": [1]});
                Some(p)
            }
            "empty" => Some(json!({})),
            // Whatever there is, its first member is that.
            "wrapped" if m == "workspace/didChangeConfiguration" => Some(json!([])),
            "wrapped" => Some(json!([params])),
            "scalar" => Some(rng.pick(&[json!("text"), json!(5), json!(true)]).clone()),
            "bad" => Some(broken(&params)),
            other => panic!("unknown shape {other}"),
        };
        let id = match ev["id"].as_str().unwrap() {
            "absent" => None,
            "num" => Some(Id::Number(match rng.below(4) {
                0 => *rng.pick(&[0, -1, i64::MAX, i64::MIN, i32::MAX as i64 + 1, i32::MIN as i64 - 1, 1 << 53]),
                _ => rng.below(1 << 30) as i64 - 1000,
            })),
            "str" => Some(Id::String(match rng.below(4) {
                0 => rng.pick(&["", "1", "null", "\u{0}", "a\"b\\c\n"]).to_string(),
                1 => "x".repeat(300),
                _ => format!("id-{}-é", rng.below(1000)),
            })),
            "null" => Some(Id::Null),
            other => panic!("unknown id {other}"),
        };
        let (h, r) = (ev["h"].as_str().unwrap(), ev["r"].as_str().unwrap());
        let (norm_params, norm_result) = types(h);
        let error = Error {
            code: rng.pick(&[ErrorCode::ServerError(self.tag), ErrorCode::InvalidParams, ErrorCode::ContentModified, ErrorCode::MethodNotFound]).clone(),
            message: format!("no {}", self.tag).into(),
            data: rng.pick(&[None, Some(json!({"d": self.tag})), Some(json!("x")), Some(json!("$/x"))]).clone(),
        };
        self.board.0.lock().unwrap().next = Some(if r == "err" { Err(error.clone()) } else { Ok(result.clone()) });

        let name = match ev["alt"].as_str().unwrap() {
            "-" => m.to_string(),
            "slash" => format!("{m}/"),
            "space" => format!("{m} "),
            "lead" => format!(" {m}"),
            "upper" => m.to_uppercase(),
            "lower" if m.to_lowercase() != m => m.to_lowercase(),
            "lower" => format!("{m}\n"),
            "prefix" => format!("/{m}"),
            "cut" => m[..m.len() - 1].to_string(),
            "nul" => format!("{m}\0"),
            "dot" => m.replace('/', ".") + if m.contains('/') { "" } else { "." },
            "dollar" => format!("$/{m}"),
            other => panic!("unknown alteration {other}"),
        };
        let mut b = Request::build(name.clone());
        if let Some(id) = &id {
            b = b.id(id.clone());
        }
        if let Some(p) = &sent {
            b = b.params(p.clone());
        }
        let res = self.call(b.finish());
        let log = std::mem::take(&mut self.board.0.lock().unwrap().log);

        let mut fails: Vec<Fail> = Vec::new();
        let mut fail = |what: String| fails.push(format!("{name:?} with {} params {}: {what}", ev["shape"], json!(sent)).into());
        let want: Vec<(&str, Value)> = match h {
            "-" => vec![],
            _ => vec![(h, match &sent { None => Value::Null, Some(p) => norm_params(p.clone()) })],
        };
        if log != want {
            fail(format!("expected handlers and params {want:?}, observed {log:?}"));
        }
        match (&res, r) {
            (Err(e), _) => fail(e.clone()),
            (Ok(None), "none") => {}
            (Ok(Some(x)), "none") => fail(format!("a notification is answered with {x:?}")),
            (Ok(None), _) => fail("the request is not answered".into()),
            (Ok(Some(x)), _) => {
                if Some(x.id()) != id.as_ref() {
                    fail(format!("response {x:?} to a request with id {id:?}"));
                }
                match r {
                    "ok" if x.result() == Some(&norm_result(result.clone())) => {}
                    "err" if x.error() == Some(&error) => {}
                    "e" if x.is_error() => {}
                    _ if r.starts_with("e-") && x.error().map(|e| format!("e{}", e.code.code())).as_deref() == Some(r) => {}
                    _ => fail(format!("expected {r}, observed {x:?}")),
                }
            }
        }
        if fails.is_empty() { Ok(()) } else { Err(fails) }
    }
}
