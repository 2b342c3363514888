//! The method table of the simulated language server: every LSP method with its own params and
//! result samples (each carrying a token that identifies the message), the custom methods, and the
//! backend whose handlers all delegate to an [`Engine`].

use std::sync::Arc;

use futures::future::BoxFuture;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use tower::util::BoxService;
use tower_lsp::jsonrpc::{Error, Request, Response, Result};
use tower_lsp::lsp_types::request::{
    GotoDeclarationParams, GotoDeclarationResponse, GotoImplementationParams,
    GotoImplementationResponse, GotoTypeDefinitionParams, GotoTypeDefinitionResponse,
};
use tower_lsp::lsp_types::*;
use tower_lsp::{Client, ClientSocket, ExitedError, LanguageServer, LspService};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Arity {
    Params,
    NoParams,
}

pub struct MethodInfo {
    pub rpc: &'static str,
    pub request: bool,
    pub arity: Arity,
    /// Typed round trip of the params: what the handler must observe.
    pub norm_params: fn(Value) -> std::result::Result<Value, serde_json::Error>,
    /// Typed round trip of the result: what the client must observe.
    pub norm_result: fn(Value) -> Value,
    pub custom: bool,
}

/// What the handlers of the simulated server do is decided by the engine of the scenario.
pub trait Engine: Send + Sync {
    fn handle(
        &self,
        client: &Client,
        method: &'static str,
        params: Option<Value>,
    ) -> BoxFuture<'static, std::result::Result<Value, Error>>;
}

pub struct Backend {
    pub client: Client,
    pub engine: Arc<dyn Engine>,
}

impl Backend {
    async fn req<P: Serialize, R: DeserializeOwned>(&self, m: &'static str, p: P) -> Result<R> {
        let v = serde_json::to_value(&p).unwrap();
        drop(p);
        self.engine
            .handle(&self.client, m, Some(v))
            .await
            .map(|v| serde_json::from_value(v).expect("harness: bad result sample"))
    }

    async fn ntf<P: Serialize>(&self, m: &'static str, p: P) {
        let v = serde_json::to_value(&p).unwrap();
        drop(p);
        let _ = self.engine.handle(&self.client, m, Some(v)).await;
    }
}

/// How the server's code is packaged.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pack {
    Plain,
    Arc,
    /// A boxed trait object.
    Box,
    /// All methods but initialize and shutdown are left to their default implementations.
    Minimal,
}

/// A server with a [`Backend`] in it.
trait Host: LanguageServer {
    fn b(&self) -> &Backend;
}

impl Host for Backend {
    fn b(&self) -> &Backend {
        self
    }
}

impl Host for Arc<Backend> {
    fn b(&self) -> &Backend {
        self
    }
}

trait DynHost: LanguageServer {
    fn dyn_b(&self) -> &Backend;
}

impl DynHost for Backend {
    fn dyn_b(&self) -> &Backend {
        self
    }
}

impl Host for Box<dyn DynHost> {
    fn b(&self) -> &Backend {
        self.dyn_b()
    }
}

struct Minimal(Backend);

#[tower_lsp::async_trait]
impl LanguageServer for Minimal {
    async fn initialize(&self, params: InitializeParams) -> Result<InitializeResult> {
        self.0.initialize(params).await
    }
    async fn shutdown(&self) -> Result<()> {
        self.0.shutdown().await
    }
}

impl Host for Minimal {
    fn b(&self) -> &Backend {
        &self.0
    }
}

// Custom methods of every arity.
async fn custom_req<S: Host>(s: &S, p: CustomParams) -> Result<CustomResult> {
    s.b().req("custom/req", p).await
}
async fn custom_req_vec<S: Host>(s: &S, p: Vec<Value>) -> Result<Value> {
    s.b().req("custom/reqVec", p).await
}
async fn custom_req0<S: Host>(s: &S) -> Result<Value> {
    s.b().engine.handle(&s.b().client, "custom/req0", None).await
}
async fn custom_ntf<S: Host>(s: &S, p: CustomParams) {
    s.b().ntf("custom/ntf", p).await
}
async fn custom_ntf0<S: Host>(s: &S) {
    let _ = s.b().engine.handle(&s.b().client, "custom/ntf0", None).await;
}
async fn custom_dollar<S: Host>(s: &S, p: CustomParams) -> Result<CustomResult> {
    s.b().req("$/custom/req", p).await
}
async fn custom_opt<S: Host>(s: &S, p: Option<CustomParams>) -> Result<CustomResult> {
    s.b().req("custom/opt", p).await
}
async fn custom_any<S: Host>(s: &S, p: Value) {
    s.b().ntf("custom/any", p).await
}
async fn custom_bad<S: Host>(s: &S, p: CustomParams) -> Result<Unserializable> {
    s.b().req::<_, Value>("custom/unserializable", p).await.map(|_| Unserializable)
}

/// A result type whose serialization always fails.
pub struct Unserializable;

impl Serialize for Unserializable {
    fn serialize<S: serde::Serializer>(&self, _: S) -> std::result::Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("cannot serialize"))
    }
}

#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct CustomParams {
    pub tag: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub text: Option<String>,
}

#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct CustomResult {
    pub out: Value,
}

fn norm<T: Serialize + DeserializeOwned>(
    v: Value,
) -> std::result::Result<Value, serde_json::Error> {
    serde_json::from_value::<T>(v).map(|t| serde_json::to_value(&t).unwrap())
}

fn norm_r<T: Serialize + DeserializeOwned>(v: Value) -> Value {
    let t: T = serde_json::from_value(v).expect("harness: bad result sample");
    serde_json::to_value(&t).unwrap()
}

fn norm_none(_: Value) -> std::result::Result<Value, serde_json::Error> {
    Err(serde::de::Error::custom("no params allowed"))
}

pub type SimService = BoxService<Request, Option<Response>, ExitedError>;

/// Builds the service under test with the custom methods registered.
pub fn build_service(engine: Arc<dyn Engine>, pack: Pack) -> (SimService, ClientSocket) {
    match pack {
        Pack::Plain => with_custom(|client| Backend { client, engine }),
        Pack::Arc => with_custom(|client| Arc::new(Backend { client, engine })),
        Pack::Box => with_custom(|client| Box::new(Backend { client, engine }) as Box<dyn DynHost>),
        Pack::Minimal => with_custom(|client| Minimal(Backend { client, engine })),
    }
}

fn with_custom<S: Host>(f: impl FnOnce(Client) -> S) -> (SimService, ClientSocket) {
    let (service, socket) = LspService::build(f)
        .custom_method("custom/req", custom_req::<S>)
        .custom_method("custom/reqVec", custom_req_vec::<S>)
        .custom_method("custom/req0", custom_req0::<S>)
        .custom_method("custom/ntf", custom_ntf::<S>)
        .custom_method("custom/ntf0", custom_ntf0::<S>)
        .custom_method("$/custom/req", custom_dollar::<S>)
        .custom_method("custom/unserializable", custom_bad::<S>)
        .custom_method("custom/opt", custom_opt::<S>)
        .custom_method("custom/any", custom_any::<S>)
        .finish();
    (BoxService::new(service), socket)
}

macro_rules! handler_fns {
    (@acc [$($acc:tt)*]) => {
        #[tower_lsp::async_trait]
        impl LanguageServer for Backend {
            async fn initialize(&self, params: InitializeParams) -> Result<InitializeResult> {
                self.req("initialize", params).await
            }
            async fn initialized(&self, params: InitializedParams) {
                self.ntf("initialized", params).await
            }
            async fn shutdown(&self) -> Result<()> {
                self.engine.handle(&self.client, "shutdown", None).await.map(|_| ())
            }
            $($acc)*
        }
    };
    (@acc [$($acc:tt)*] req $rpc:literal $f:ident($p:ty) -> $r:ty; $($rest:tt)*) => {
        handler_fns!(@acc [$($acc)* async fn $f(&self, params: $p) -> Result<$r> { self.req($rpc, params).await }] $($rest)*);
    };
    (@acc [$($acc:tt)*] ntf $rpc:literal $f:ident($p:ty); $($rest:tt)*) => {
        handler_fns!(@acc [$($acc)* async fn $f(&self, params: $p) { self.ntf($rpc, params).await }] $($rest)*);
    };
}

macro_rules! table_rows {
    ($v:ident;) => {};
    ($v:ident; req $rpc:literal $f:ident($p:ty) -> $r:ty; $($rest:tt)*) => {
        $v.push(MethodInfo { rpc: $rpc, request: true, arity: Arity::Params, norm_params: norm::<$p>, norm_result: norm_r::<$r>, custom: false });
        table_rows!($v; $($rest)*);
    };
    ($v:ident; ntf $rpc:literal $f:ident($p:ty); $($rest:tt)*) => {
        $v.push(MethodInfo { rpc: $rpc, request: false, arity: Arity::Params, norm_params: norm::<$p>, norm_result: norm_r::<()>, custom: false });
        table_rows!($v; $($rest)*);
    };
}

macro_rules! methods {
    ($($t:tt)*) => {
        handler_fns!(@acc [] $($t)*);
        fn lsp_rows(v: &mut Vec<MethodInfo>) { table_rows!(v; $($t)*); }
    };
}

methods! {
    ntf "textDocument/didOpen" did_open(DidOpenTextDocumentParams);
    ntf "textDocument/didChange" did_change(DidChangeTextDocumentParams);
    ntf "textDocument/willSave" will_save(WillSaveTextDocumentParams);
    req "textDocument/willSaveWaitUntil" will_save_wait_until(WillSaveTextDocumentParams) -> Option<Vec<TextEdit>>;
    ntf "textDocument/didSave" did_save(DidSaveTextDocumentParams);
    ntf "textDocument/didClose" did_close(DidCloseTextDocumentParams);
    req "textDocument/declaration" goto_declaration(GotoDeclarationParams) -> Option<GotoDeclarationResponse>;
    req "textDocument/definition" goto_definition(GotoDefinitionParams) -> Option<GotoDefinitionResponse>;
    req "textDocument/typeDefinition" goto_type_definition(GotoTypeDefinitionParams) -> Option<GotoTypeDefinitionResponse>;
    req "textDocument/implementation" goto_implementation(GotoImplementationParams) -> Option<GotoImplementationResponse>;
    req "textDocument/references" references(ReferenceParams) -> Option<Vec<Location>>;
    req "textDocument/prepareCallHierarchy" prepare_call_hierarchy(CallHierarchyPrepareParams) -> Option<Vec<CallHierarchyItem>>;
    req "callHierarchy/incomingCalls" incoming_calls(CallHierarchyIncomingCallsParams) -> Option<Vec<CallHierarchyIncomingCall>>;
    req "callHierarchy/outgoingCalls" outgoing_calls(CallHierarchyOutgoingCallsParams) -> Option<Vec<CallHierarchyOutgoingCall>>;
    req "textDocument/prepareTypeHierarchy" prepare_type_hierarchy(TypeHierarchyPrepareParams) -> Option<Vec<TypeHierarchyItem>>;
    req "typeHierarchy/supertypes" supertypes(TypeHierarchySupertypesParams) -> Option<Vec<TypeHierarchyItem>>;
    req "typeHierarchy/subtypes" subtypes(TypeHierarchySubtypesParams) -> Option<Vec<TypeHierarchyItem>>;
    req "textDocument/documentHighlight" document_highlight(DocumentHighlightParams) -> Option<Vec<DocumentHighlight>>;
    req "textDocument/documentLink" document_link(DocumentLinkParams) -> Option<Vec<DocumentLink>>;
    req "documentLink/resolve" document_link_resolve(DocumentLink) -> DocumentLink;
    req "textDocument/hover" hover(HoverParams) -> Option<Hover>;
    req "textDocument/codeLens" code_lens(CodeLensParams) -> Option<Vec<CodeLens>>;
    req "codeLens/resolve" code_lens_resolve(CodeLens) -> CodeLens;
    req "textDocument/foldingRange" folding_range(FoldingRangeParams) -> Option<Vec<FoldingRange>>;
    req "textDocument/selectionRange" selection_range(SelectionRangeParams) -> Option<Vec<SelectionRange>>;
    req "textDocument/documentSymbol" document_symbol(DocumentSymbolParams) -> Option<DocumentSymbolResponse>;
    req "textDocument/semanticTokens/full" semantic_tokens_full(SemanticTokensParams) -> Option<SemanticTokensResult>;
    req "textDocument/semanticTokens/full/delta" semantic_tokens_full_delta(SemanticTokensDeltaParams) -> Option<SemanticTokensFullDeltaResult>;
    req "textDocument/semanticTokens/range" semantic_tokens_range(SemanticTokensRangeParams) -> Option<SemanticTokensRangeResult>;
    req "textDocument/inlineValue" inline_value(InlineValueParams) -> Option<Vec<InlineValue>>;
    req "textDocument/inlayHint" inlay_hint(InlayHintParams) -> Option<Vec<InlayHint>>;
    req "inlayHint/resolve" inlay_hint_resolve(InlayHint) -> InlayHint;
    req "textDocument/moniker" moniker(MonikerParams) -> Option<Vec<Moniker>>;
    req "textDocument/completion" completion(CompletionParams) -> Option<CompletionResponse>;
    req "completionItem/resolve" completion_resolve(CompletionItem) -> CompletionItem;
    req "textDocument/diagnostic" diagnostic(DocumentDiagnosticParams) -> DocumentDiagnosticReportResult;
    req "workspace/diagnostic" workspace_diagnostic(WorkspaceDiagnosticParams) -> WorkspaceDiagnosticReportResult;
    req "textDocument/signatureHelp" signature_help(SignatureHelpParams) -> Option<SignatureHelp>;
    req "textDocument/codeAction" code_action(CodeActionParams) -> Option<CodeActionResponse>;
    req "codeAction/resolve" code_action_resolve(CodeAction) -> CodeAction;
    req "textDocument/documentColor" document_color(DocumentColorParams) -> Vec<ColorInformation>;
    req "textDocument/colorPresentation" color_presentation(ColorPresentationParams) -> Vec<ColorPresentation>;
    req "textDocument/formatting" formatting(DocumentFormattingParams) -> Option<Vec<TextEdit>>;
    req "textDocument/rangeFormatting" range_formatting(DocumentRangeFormattingParams) -> Option<Vec<TextEdit>>;
    req "textDocument/onTypeFormatting" on_type_formatting(DocumentOnTypeFormattingParams) -> Option<Vec<TextEdit>>;
    req "textDocument/rename" rename(RenameParams) -> Option<WorkspaceEdit>;
    req "textDocument/prepareRename" prepare_rename(TextDocumentPositionParams) -> Option<PrepareRenameResponse>;
    req "textDocument/linkedEditingRange" linked_editing_range(LinkedEditingRangeParams) -> Option<LinkedEditingRanges>;
    req "workspace/symbol" symbol(WorkspaceSymbolParams) -> Option<Vec<SymbolInformation>>;
    req "workspaceSymbol/resolve" symbol_resolve(WorkspaceSymbol) -> WorkspaceSymbol;
    ntf "workspace/didChangeConfiguration" did_change_configuration(DidChangeConfigurationParams);
    ntf "workspace/didChangeWorkspaceFolders" did_change_workspace_folders(DidChangeWorkspaceFoldersParams);
    req "workspace/willCreateFiles" will_create_files(CreateFilesParams) -> Option<WorkspaceEdit>;
    ntf "workspace/didCreateFiles" did_create_files(CreateFilesParams);
    req "workspace/willRenameFiles" will_rename_files(RenameFilesParams) -> Option<WorkspaceEdit>;
    ntf "workspace/didRenameFiles" did_rename_files(RenameFilesParams);
    req "workspace/willDeleteFiles" will_delete_files(DeleteFilesParams) -> Option<WorkspaceEdit>;
    ntf "workspace/didDeleteFiles" did_delete_files(DeleteFilesParams);
    ntf "workspace/didChangeWatchedFiles" did_change_watched_files(DidChangeWatchedFilesParams);
    req "workspace/executeCommand" execute_command(ExecuteCommandParams) -> Option<Value>;
}

impl MethodInfo {
    /// Whether `null` is a proper value for the params.
    pub fn nullable(&self) -> bool {
        matches!(self.rpc, "custom/opt" | "custom/any")
    }
}

pub const M_INITIALIZE: usize = 0;
pub const M_INITIALIZED: usize = 1;
pub const M_SHUTDOWN: usize = 2;

/// All methods; indices 0..3 are the lifecycle ones.
pub fn table() -> Vec<MethodInfo> {
    let mut v = vec![
        MethodInfo { rpc: "initialize", request: true, arity: Arity::Params, norm_params: norm::<InitializeParams>, norm_result: norm_r::<InitializeResult>, custom: false },
        MethodInfo { rpc: "initialized", request: false, arity: Arity::Params, norm_params: norm::<InitializedParams>, norm_result: norm_r::<()>, custom: false },
        MethodInfo { rpc: "shutdown", request: true, arity: Arity::NoParams, norm_params: norm_none, norm_result: norm_r::<()>, custom: false },
        MethodInfo { rpc: "custom/req", request: true, arity: Arity::Params, norm_params: norm::<CustomParams>, norm_result: norm_r::<CustomResult>, custom: true },
        MethodInfo { rpc: "custom/ntf", request: false, arity: Arity::Params, norm_params: norm::<CustomParams>, norm_result: norm_r::<()>, custom: true },
        MethodInfo { rpc: "custom/reqVec", request: true, arity: Arity::Params, norm_params: norm::<Vec<Value>>, norm_result: norm_r::<Value>, custom: true },
        MethodInfo { rpc: "custom/req0", request: true, arity: Arity::NoParams, norm_params: norm_none, norm_result: norm_r::<Value>, custom: true },
        MethodInfo { rpc: "custom/ntf0", request: false, arity: Arity::NoParams, norm_params: norm_none, norm_result: norm_r::<()>, custom: true },
        MethodInfo { rpc: "$/custom/req", request: true, arity: Arity::Params, norm_params: norm::<CustomParams>, norm_result: norm_r::<CustomResult>, custom: true },
        MethodInfo { rpc: "custom/unserializable", request: true, arity: Arity::Params, norm_params: norm::<CustomParams>, norm_result: norm_r::<Value>, custom: true },
        MethodInfo { rpc: "custom/opt", request: true, arity: Arity::Params, norm_params: norm::<Option<CustomParams>>, norm_result: norm_r::<CustomResult>, custom: true },
        MethodInfo { rpc: "custom/any", request: false, arity: Arity::Params, norm_params: norm::<Value>, norm_result: norm_r::<()>, custom: true },
    ];
    lsp_rows(&mut v);
    v
}

fn uri(t: u32) -> String {
    format!("file:///w/tok:{t}/a.rs")
}
fn pos() -> Value {
    json!({"line": 3, "character": 7})
}
fn range() -> Value {
    json!({"start": {"line": 1, "character": 2}, "end": {"line": 3, "character": 4}})
}
fn doc(t: u32) -> Value {
    json!({"uri": uri(t)})
}
fn tdp(t: u32) -> Value {
    json!({"textDocument": doc(t), "position": pos()})
}
fn merge(mut a: Value, b: Value) -> Value {
    for (k, v) in b.as_object().unwrap() {
        a[k] = v.clone();
    }
    a
}
fn ch_item(t: u32) -> Value {
    json!({"name": format!("tok:{t}"), "kind": 12, "uri": uri(t), "range": range(), "selectionRange": range()})
}
fn edit(t: u32) -> Value {
    json!({"range": range(), "newText": format!("tok:{t}")})
}
fn loc(t: u32) -> Value {
    json!({"uri": uri(t), "range": range()})
}
fn wsedit(t: u32) -> Value {
    json!({"changes": {uri(t): [edit(t)]}})
}
fn opts() -> Value {
    json!({"tabSize": 4, "insertSpaces": true})
}

/// Valid params for `rpc`, carrying token `t`.
pub fn sample_params(rpc: &str, t: u32, text: Option<&str>) -> Value {
    let name = format!("tok:{t}");
    match rpc {
        "initialize" => json!({"capabilities": {}, "rootUri": uri(t)}),
        "initialized" => json!({}),
        "custom/req" | "custom/ntf" | "$/custom/req" | "custom/unserializable" | "custom/opt" | "custom/any" => match text {
            Some(x) => json!({"tag": name, "text": x}),
            None => json!({"tag": name}),
        },
        "custom/reqVec" => json!([name, text, {"n": t}]),
        "textDocument/didOpen" => json!({"textDocument": {"uri": uri(t), "languageId": "rust", "version": 1, "text": text.unwrap_or("fn main() {}")}}),
        "textDocument/didChange" => json!({"textDocument": {"uri": uri(t), "version": 2}, "contentChanges": [{"text": text.unwrap_or("x")}]}),
        "textDocument/willSave" | "textDocument/willSaveWaitUntil" => json!({"textDocument": doc(t), "reason": 1}),
        "textDocument/didSave" => json!({"textDocument": doc(t), "text": text}),
        "textDocument/didClose" | "textDocument/documentSymbol" | "textDocument/documentLink"
        | "textDocument/codeLens" | "textDocument/foldingRange" | "textDocument/semanticTokens/full"
        | "textDocument/diagnostic" | "textDocument/documentColor" => json!({"textDocument": doc(t)}),
        "textDocument/references" => merge(tdp(t), json!({"context": {"includeDeclaration": true}})),
        "textDocument/rename" => merge(tdp(t), json!({"newName": "new_name"})),
        "textDocument/onTypeFormatting" => merge(tdp(t), json!({"ch": "}", "options": opts()})),
        "textDocument/declaration" | "textDocument/definition" | "textDocument/typeDefinition"
        | "textDocument/implementation" | "textDocument/prepareCallHierarchy"
        | "textDocument/prepareTypeHierarchy" | "textDocument/documentHighlight"
        | "textDocument/hover" | "textDocument/moniker" | "textDocument/completion"
        | "textDocument/signatureHelp" | "textDocument/prepareRename"
        | "textDocument/linkedEditingRange" => tdp(t),
        "callHierarchy/incomingCalls" | "callHierarchy/outgoingCalls" | "typeHierarchy/supertypes"
        | "typeHierarchy/subtypes" => json!({"item": ch_item(t)}),
        "documentLink/resolve" => json!({"range": range(), "target": uri(t)}),
        "codeLens/resolve" => json!({"range": range(), "data": {"k": name}}),
        "textDocument/selectionRange" => json!({"textDocument": doc(t), "positions": [pos()]}),
        "textDocument/semanticTokens/full/delta" => json!({"textDocument": doc(t), "previousResultId": "p"}),
        "textDocument/semanticTokens/range" | "textDocument/inlayHint" => json!({"textDocument": doc(t), "range": range()}),
        "textDocument/inlineValue" => json!({"textDocument": doc(t), "range": range(), "context": {"frameId": 1, "stoppedLocation": range()}}),
        "inlayHint/resolve" => json!({"position": pos(), "label": name}),
        "completionItem/resolve" => json!({"label": name}),
        "workspace/diagnostic" => json!({"previousResultIds": [{"uri": uri(t), "value": "v"}]}),
        "textDocument/codeAction" => json!({"textDocument": doc(t), "range": range(), "context": {"diagnostics": []}}),
        "codeAction/resolve" => json!({"title": name}),
        "textDocument/colorPresentation" => json!({"textDocument": doc(t), "color": {"red": 0.5, "green": 0.25, "blue": 0.0, "alpha": 1.0}, "range": range()}),
        "textDocument/formatting" => json!({"textDocument": doc(t), "options": opts()}),
        "textDocument/rangeFormatting" => json!({"textDocument": doc(t), "range": range(), "options": opts()}),
        "workspace/symbol" => json!({"query": name}),
        "workspaceSymbol/resolve" => json!({"name": name, "kind": 5, "location": loc(t)}),
        "workspace/didChangeConfiguration" => json!({"settings": {"a": name, "text": text}}),
        "workspace/didChangeWorkspaceFolders" => json!({"event": {"added": [{"uri": uri(t), "name": "n"}], "removed": []}}),
        "workspace/willCreateFiles" | "workspace/didCreateFiles" | "workspace/willDeleteFiles"
        | "workspace/didDeleteFiles" => json!({"files": [{"uri": uri(t)}]}),
        "workspace/willRenameFiles" | "workspace/didRenameFiles" => json!({"files": [{"oldUri": uri(t), "newUri": "file:///b"}]}),
        "workspace/didChangeWatchedFiles" => json!({"changes": [{"uri": uri(t), "type": 2}]}),
        "workspace/executeCommand" => json!({"command": name, "arguments": [1, text]}),
        _ => panic!("harness: no params sample for {rpc}"),
    }
}

/// A valid non-trivial result for `rpc`, carrying token `t`.
pub fn sample_result(rpc: &str, t: u32, text: Option<&str>) -> Value {
    let name = format!("tok:{t}");
    match rpc {
        "initialize" => json!({"capabilities": {"hoverProvider": true}, "serverInfo": {"name": name}}),
        "shutdown" => json!(null),
        "custom/req" | "$/custom/req" | "custom/opt" => json!({"out": [name, text]}),
        "custom/reqVec" | "custom/req0" | "custom/unserializable" => json!({"r": name, "text": text}),
        "textDocument/willSaveWaitUntil" | "textDocument/formatting" | "textDocument/rangeFormatting"
        | "textDocument/onTypeFormatting" => json!([edit(t)]),
        "textDocument/declaration" => json!(loc(t)),
        "textDocument/definition" | "textDocument/references" => json!([loc(t)]),
        "textDocument/typeDefinition" | "textDocument/implementation" => json!([loc(t), loc(t)]),
        "textDocument/prepareCallHierarchy" | "textDocument/prepareTypeHierarchy"
        | "typeHierarchy/supertypes" | "typeHierarchy/subtypes" => json!([ch_item(t)]),
        "callHierarchy/incomingCalls" => json!([{"from": ch_item(t), "fromRanges": [range()]}]),
        "callHierarchy/outgoingCalls" => json!([{"to": ch_item(t), "fromRanges": [range()]}]),
        "textDocument/documentHighlight" => json!([{"range": {"start": {"line": t, "character": 0}, "end": {"line": t, "character": 9}}}]),
        "textDocument/documentLink" => json!([{"range": range(), "target": uri(t)}]),
        "documentLink/resolve" => json!({"range": range(), "target": uri(t)}),
        "textDocument/hover" => json!({"contents": {"kind": "markdown", "value": name}}),
        "textDocument/codeLens" => json!([{"range": range(), "data": name}]),
        "codeLens/resolve" => json!({"range": range(), "data": name}),
        "textDocument/foldingRange" => json!([{"startLine": t, "endLine": t + 1}]),
        "textDocument/selectionRange" => json!([{"range": {"start": {"line": t, "character": 0}, "end": {"line": t, "character": 9}}}]),
        "textDocument/documentSymbol" => json!([{"name": name, "kind": 12, "location": loc(t)}]),
        "textDocument/semanticTokens/full" | "textDocument/semanticTokens/full/delta"
        | "textDocument/semanticTokens/range" => json!({"resultId": name, "data": [1, 2, 3, 4, 5]}),
        "textDocument/inlineValue" => json!([{"range": range(), "text": name}]),
        "textDocument/inlayHint" => json!([{"position": pos(), "label": name}]),
        "inlayHint/resolve" => json!({"position": pos(), "label": name}),
        "textDocument/moniker" => json!([{"scheme": "s", "identifier": name, "unique": "document"}]),
        "textDocument/completion" => json!([{"label": name}]),
        "completionItem/resolve" => json!({"label": name}),
        "textDocument/diagnostic" => json!({"kind": "full", "resultId": name, "items": []}),
        "workspace/diagnostic" => json!({"items": [{"kind": "full", "uri": uri(t), "version": 1, "items": []}]}),
        "textDocument/signatureHelp" => json!({"signatures": [{"label": name}]}),
        "textDocument/codeAction" => json!([{"title": name}]),
        "codeAction/resolve" => json!({"title": name}),
        "textDocument/documentColor" => json!([{"range": {"start": {"line": t, "character": 0}, "end": {"line": t, "character": 9}}, "color": {"red": 0.5, "green": 0.25, "blue": 0.0, "alpha": 1.0}}]),
        "textDocument/colorPresentation" => json!([{"label": name}]),
        "textDocument/rename" | "workspace/willCreateFiles" | "workspace/willRenameFiles"
        | "workspace/willDeleteFiles" => wsedit(t),
        "textDocument/prepareRename" => json!({"range": range(), "placeholder": name}),
        "textDocument/linkedEditingRange" => json!({"ranges": [range()], "wordPattern": name}),
        "workspace/symbol" => json!([{"name": name, "kind": 5, "location": loc(t)}]),
        "workspaceSymbol/resolve" => json!({"name": name, "kind": 5, "location": loc(t)}),
        "workspace/executeCommand" => json!({"done": name, "text": text}),
        _ => panic!("harness: no result sample for {rpc}"),
    }
}

/// Methods for which `null` is a legal result.
pub fn null_result_ok(m: &MethodInfo) -> bool {
    m.request
        && !m.custom
        && !matches!(
            m.rpc,
            "initialize" | "shutdown" | "documentLink/resolve" | "codeLens/resolve" | "inlayHint/resolve"
                | "completionItem/resolve" | "textDocument/diagnostic" | "workspace/diagnostic"
                | "codeAction/resolve" | "textDocument/documentColor"
                | "textDocument/colorPresentation" | "workspaceSymbol/resolve"
        )
}

/// Finds the token in any of our params.
pub fn find_tok(v: &Value) -> Option<u32> {
    match v {
        Value::String(s) => {
            let i = s.find("tok:")?;
            let digits: String = s[i + 4..].chars().take_while(|c| c.is_ascii_digit()).collect();
            digits.parse().ok()
        }
        Value::Array(a) => a.iter().find_map(find_tok),
        Value::Object(o) => o.iter().find_map(|(k, v)| {
            find_tok(&Value::String(k.clone())).or_else(|| find_tok(v))
        }),
        _ => None,
    }
}

/// The table is consistent: every sample deserializes and keeps its token.
pub fn selftest() {
    for m in table() {
        if m.arity == Arity::Params {
            let v = (m.norm_params)(sample_params(m.rpc, 4242, Some("text"))).unwrap_or_else(|e| panic!("{}: {e}", m.rpc));
            if m.rpc != "initialized" {
                assert_eq!(find_tok(&v), Some(4242), "{}: {v}", m.rpc);
            }
        }
        if m.request {
            let v = (m.norm_result)(sample_result(m.rpc, 4242, Some("text")));
            if m.rpc != "shutdown" {
                assert!(v.to_string().contains("4242"), "{}: {v}", m.rpc);
            }
            if null_result_ok(&m) {
                (m.norm_result)(Value::Null);
            }
        }
    }
}
