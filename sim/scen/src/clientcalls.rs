//! Everything the simulated handlers can ask of `Client`, with the independently written
//! expectation of what must appear on the wire and what the caller must get back.

use serde_json::{json, Value};
use tower::Service;
use tower_lsp::jsonrpc::{Error, Request};
use tower_lsp::lsp_types::*;
use tower_lsp::Client;

pub enum CustomReq {}
impl request::Request for CustomReq {
    type Params = crate::methods::CustomParams;
    type Result = crate::methods::CustomResult;
    const METHOD: &'static str = "custom/clientReq";
}
pub enum CustomNtf {}
impl notification::Notification for CustomNtf {
    type Params = crate::methods::CustomParams;
    const METHOD: &'static str = "custom/clientNtf";
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum ReqKind {
    Custom,
    ShowMessageRequest,
    Register,
    Unregister,
    ShowDocument,
    WorkspaceFolders,
    Configuration,
    ApplyEdit,
    CodeLensRefresh,
    SemanticTokensRefresh,
    InlineValueRefresh,
    InlayHintRefresh,
    DiagnosticRefresh,
    /// `<Client as tower::Service>::call` with an id from `next_request_id` or one of the user's own.
    Raw,
}
use ReqKind::*;

pub const REQ_KINDS: [ReqKind; 14] = [
    Custom,
    ShowMessageRequest,
    Register,
    Unregister,
    ShowDocument,
    WorkspaceFolders,
    Configuration,
    ApplyEdit,
    CodeLensRefresh,
    SemanticTokensRefresh,
    InlineValueRefresh,
    InlayHintRefresh,
    DiagnosticRefresh,
    Raw,
];

/// Some choice out of `n` which depends on the token and the salt only.
fn sel(t: u32, salt: u64, n: u32) -> u32 {
    let mut x = (t as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ (salt + 1).wrapping_mul(0xd1b5_4a32_d192_ed03);
    x ^= x >> 32;
    x = x.wrapping_mul(0xd6e8_feb8_6659_fd93);
    ((x >> 33) % n as u64) as u32
}

/// The token with some text behind it.
fn text(t: u32) -> String {
    let more = match sel(t, 1, 12) {
        0 => " héllo wörld",
        1 => " 日本語テキスト 😀🦀",
        2 => " line1\r\nContent-Length: 2\r\n\r\n{}",
        3 => " quote\" back\\slash \n \u{1}\u{7f}\u{feff}\u{10ffff}",
        4 => return format!("tok:{t} {}", "long text ".repeat(sel(t, 2, 400) as usize)),
        _ => "",
    };
    format!("tok:{t}{more}")
}

const TYPES: [(MessageType, i32); 4] = [(MessageType::ERROR, 1), (MessageType::WARNING, 2), (MessageType::INFO, 3), (MessageType::LOG, 4)];

fn typ(t: u32) -> (MessageType, i32) {
    TYPES[sel(t, 3, 4) as usize]
}

fn opt<T>(t: u32, salt: u64, f: impl FnOnce() -> T) -> Option<T> {
    (sel(t, salt, 2) == 0).then(f)
}

fn percent(t: u32, salt: u64) -> u32 {
    [0, 1, 33, 99, 100, 101, u32::MAX][sel(t, salt, 7) as usize]
}

fn range_json() -> Value {
    json!({"start": {"line": 1, "character": 2}, "end": {"line": 3, "character": 0}})
}

fn range() -> Range {
    Range::new(Position::new(1, 2), Position::new(3, 0))
}

impl ReqKind {
    pub fn exempt(self) -> bool {
        self == ShowMessageRequest
    }
    /// Not gated by the lifecycle at all (plain transport).
    pub fn raw(self) -> bool {
        self == Raw
    }
    pub fn has_token(self) -> bool {
        !matches!(
            self,
            WorkspaceFolders
                | CodeLensRefresh
                | SemanticTokensRefresh
                | InlineValueRefresh
                | InlayHintRefresh
                | DiagnosticRefresh
        )
    }
    /// Method and params expected on the wire (`null` also stands for absent params).
    pub fn wire(self, t: u32) -> (&'static str, Value) {
        let n = format!("tok:{t}");
        match self {
            Custom => ("custom/clientReq", json!({"tag": n, "text": opt(t, 10, || text(t))})),
            ShowMessageRequest => {
                let actions = match sel(t, 11, 4) {
                    0 => Value::Null,
                    1 => json!([]),
                    2 => json!([{"title": "OK"}]),
                    _ => json!([{"title": "Yes", "yes": true}, {"title": "いいえ", "n": -1, "s": "x"}, {"title": ""}]),
                };
                ("window/showMessageRequest", json!({"type": typ(t).1, "message": text(t), "actions": actions}))
            }
            Register => {
                let r: Vec<Value> = (0..1 + sel(t, 12, 3))
                    .map(|i| json!({"id": format!("{n}-{i}"), "method": format!("m{i}"), "registerOptions": opt(t, 13 + i as u64, || json!({"globs": ["**/*.rs", {"k": i}]}))}))
                    .collect();
                ("client/registerCapability", json!({"registrations": r}))
            }
            Unregister => {
                let r: Vec<Value> = (0..1 + sel(t, 12, 3)).map(|i| json!({"id": format!("{n}-{i}"), "method": format!("m{i}")})).collect();
                ("client/unregisterCapability", json!({"unregisterations": r}))
            }
            ShowDocument => (
                "window/showDocument",
                json!({
                    "uri": format!("file:///{n}"),
                    "external": opt(t, 14, || true),
                    "takeFocus": opt(t, 15, || sel(t, 16, 2) == 0),
                    "selection": opt(t, 17, range_json),
                }),
            ),
            WorkspaceFolders => ("workspace/workspaceFolders", Value::Null),
            Configuration => {
                let items: Vec<Value> = (0..1 + sel(t, 18, 3))
                    .map(|i| json!({"scopeUri": opt(t, 19 + i as u64, || format!("file:///{n}/{i}")), "section": format!("{n}.{i}")}))
                    .collect();
                ("workspace/configuration", json!({"items": items}))
            }
            ApplyEdit => {
                let edits: Vec<Value> = (0..sel(t, 20, 3)).map(|i| json!({"range": range_json(), "newText": format!("{i}{}", text(t))})).collect();
                ("workspace/applyEdit", json!({"edit": {"changes": {format!("file:///{n}"): edits}}}))
            }
            CodeLensRefresh => ("workspace/codeLens/refresh", Value::Null),
            SemanticTokensRefresh => ("workspace/semanticTokens/refresh", Value::Null),
            InlineValueRefresh => ("workspace/inlineValue/refresh", Value::Null),
            InlayHintRefresh => ("workspace/inlayHint/refresh", Value::Null),
            DiagnosticRefresh => ("workspace/diagnostic/refresh", Value::Null),
            Raw => ("custom/raw", json!([n, text(t)])),
        }
    }
    /// A valid reply (variant 0, 1) and what the caller must get for it.
    pub fn good_reply(self, t: u32, variant: u32) -> (Value, Value) {
        let n = format!("rep:{t}");
        match self {
            Custom => (json!({"out": {"v": n}}), json!({"out": {"v": n}})),
            ShowMessageRequest if variant == 1 => (Value::Null, Value::Null),
            ShowMessageRequest => {
                let v = json!({"title": n, "extra": text(t), "flag": false});
                (v.clone(), v)
            }
            ShowDocument => (json!({"success": variant == 0}), json!(variant == 0)),
            WorkspaceFolders if variant == 1 => (Value::Null, Value::Null),
            WorkspaceFolders => {
                let v: Vec<Value> = (0..sel(t, 22, 3)).map(|i| json!({"uri": format!("file:///{n}/{i}"), "name": text(t)})).collect();
                (json!(v), json!(v))
            }
            Configuration => {
                let v = match sel(t, 21, 4) {
                    0 => json!([]),
                    1 => json!([null]),
                    2 => json!([n, null, {"k": 1}]),
                    _ => json!([text(t), 1.5, -7, true, [[]], {}, i64::MIN, u64::MAX]),
                };
                (v.clone(), v)
            }
            ApplyEdit => {
                let v = json!({"applied": variant == 0, "failureReason": n});
                (v.clone(), v)
            }
            Raw => (json!({"raw": n}), json!({"raw": n})),
            _ => (Value::Null, Value::Null),
        }
    }
    /// A reply whose shape does not fit the declared result type.
    pub fn bad_reply(self) -> Option<Value> {
        match self {
            Raw => None,
            _ => Some(json!(5)),
        }
    }
}

fn v<T: serde::Serialize>(t: T) -> Value {
    serde_json::to_value(t).unwrap()
}

pub async fn request(c: &Client, k: ReqKind, t: u32) -> Result<Value, Error> {
    let n = format!("tok:{t}");
    match k {
        Custom => c
            .send_request::<CustomReq>(crate::methods::CustomParams { tag: n, text: opt(t, 10, || text(t)) })
            .await
            .map(v),
        ShowMessageRequest => {
            let item = |title: &str, props: &[(&str, MessageActionItemProperty)]| MessageActionItem {
                title: title.into(),
                properties: props.iter().map(|(k, v)| (k.to_string(), v.clone())).collect(),
            };
            use MessageActionItemProperty as P;
            let actions = match sel(t, 11, 4) {
                0 => None,
                1 => Some(vec![]),
                2 => Some(vec![item("OK", &[])]),
                _ => Some(vec![
                    item("Yes", &[("yes", P::Boolean(true))]),
                    item("いいえ", &[("n", P::Integer(-1)), ("s", P::String("x".into()))]),
                    item("", &[]),
                ]),
            };
            c.show_message_request(typ(t).0, text(t), actions).await.map(v)
        }
        Register => c
            .register_capability(
                (0..1 + sel(t, 12, 3))
                    .map(|i| Registration {
                        id: format!("{n}-{i}"),
                        method: format!("m{i}"),
                        register_options: opt(t, 13 + i as u64, || json!({"globs": ["**/*.rs", {"k": i}]})),
                    })
                    .collect(),
            )
            .await
            .map(v),
        Unregister => c
            .unregister_capability(
                (0..1 + sel(t, 12, 3)).map(|i| Unregistration { id: format!("{n}-{i}"), method: format!("m{i}") }).collect(),
            )
            .await
            .map(v),
        ShowDocument => c
            .show_document(ShowDocumentParams {
                uri: format!("file:///{n}").parse().unwrap(),
                external: opt(t, 14, || true),
                take_focus: opt(t, 15, || sel(t, 16, 2) == 0),
                selection: opt(t, 17, range),
            })
            .await
            .map(v),
        WorkspaceFolders => c.workspace_folders().await.map(v),
        Configuration => c
            .configuration(
                (0..1 + sel(t, 18, 3))
                    .map(|i| ConfigurationItem {
                        scope_uri: opt(t, 19 + i as u64, || format!("file:///{n}/{i}").parse().unwrap()),
                        section: Some(format!("{n}.{i}")),
                    })
                    .collect(),
            )
            .await
            .map(v),
        ApplyEdit => c
            .apply_edit(WorkspaceEdit {
                changes: Some(
                    [(
                        format!("file:///{n}").parse().unwrap(),
                        (0..sel(t, 20, 3)).map(|i| TextEdit { range: range(), new_text: format!("{i}{}", text(t)) }).collect(),
                    )]
                    .into_iter()
                    .collect(),
                ),
                ..Default::default()
            })
            .await
            .map(v),
        CodeLensRefresh => c.code_lens_refresh().await.map(v),
        SemanticTokensRefresh => c.semantic_tokens_refresh().await.map(v),
        InlineValueRefresh => c.inline_value_refresh().await.map(v),
        InlayHintRefresh => c.inlay_hint_refresh().await.map(v),
        DiagnosticRefresh => c.workspace_diagnostic_refresh().await.map(v),
        Raw => {
            // Users may bring ids of their own, as long as they are unique.
            let id = if t % 3 == 0 { format!("raw-{n}").into() } else { c.next_request_id() };
            let req = Request::build("custom/raw").params(json!([n, text(t)])).id(id).finish();
            match c.clone().call(req).await {
                Ok(Some(r)) => r.into_parts().1,
                Ok(None) => panic!("harness: request call resolved without a response"),
                Err(_) => Err(Error::internal_error()),
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum NtfKind {
    Custom,
    LogMessage,
    ShowMessage,
    TelemetryObject,
    TelemetryArray,
    TelemetryScalar,
    PublishDiagnostics,
    /// Empty, or too simple to bear a token: at most one of each is on its way.
    Bare(u8),
    /// `$/progress` builder variants; the second field is the step within the sequence.
    Progress(u8, u8),
}

pub const SIMPLE_NTFS: [NtfKind; 7] = [
    NtfKind::Custom,
    NtfKind::LogMessage,
    NtfKind::ShowMessage,
    NtfKind::TelemetryObject,
    NtfKind::TelemetryArray,
    NtfKind::TelemetryScalar,
    NtfKind::PublishDiagnostics,
];

pub const BARE: u32 = 9;

impl NtfKind {
    pub fn exempt(self) -> bool {
        use NtfKind::*;
        matches!(self, LogMessage | ShowMessage | TelemetryObject | TelemetryArray | TelemetryScalar | Bare(_))
    }
    pub fn wire(self, t: u32) -> (&'static str, Value) {
        let n = format!("tok:{t}");
        match self {
            NtfKind::Custom => ("custom/clientNtf", json!({"tag": n, "text": opt(t, 10, || text(t))})),
            NtfKind::LogMessage => ("window/logMessage", json!({"type": typ(t).1, "message": text(t)})),
            NtfKind::ShowMessage => ("window/showMessage", json!({"type": typ(t).1, "message": text(t)})),
            NtfKind::TelemetryObject => ("telemetry/event", telemetry(t)),
            NtfKind::TelemetryArray => ("telemetry/event", json!([n, null, telemetry(t)])),
            NtfKind::TelemetryScalar => ("telemetry/event", json!([text(t)])),
            NtfKind::Bare(0) => ("telemetry/event", Value::Null),
            NtfKind::Bare(1) => ("telemetry/event", json!([])),
            NtfKind::Bare(2) => ("telemetry/event", json!({})),
            NtfKind::Bare(3) => ("telemetry/event", json!([false])),
            NtfKind::Bare(4) => ("telemetry/event", json!([-2.5])),
            NtfKind::Bare(5) => ("telemetry/event", json!([""])),
            NtfKind::Bare(6) => ("window/logMessage", json!({"type": 3, "message": ""})),
            NtfKind::Bare(7) => ("window/showMessage", json!({"type": 1, "message": ""})),
            NtfKind::Bare(_) => ("window/logMessage", json!({"type": 4, "message": " \r\n"})),
            NtfKind::PublishDiagnostics => {
                let d: Vec<Value> = (0..sel(t, 30, 4))
                    .map(|i| json!({"range": range_json(), "message": text(t), "severity": opt(t, 31 + i as u64, || 1 + i), "code": opt(t, 35, || "E1"), "source": opt(t, 36, || "src")}))
                    .collect();
                ("textDocument/publishDiagnostics", json!({"uri": format!("file:///{n}"), "diagnostics": d, "version": version(t)}))
            }
            NtfKind::Progress(variant, step) => {
                let (x, flag, maybe) = (text(t), sel(t, 43, 2) == 0, maybe(t));
                let v = match (variant, step) {
                    (0, 0) => json!({"kind": "begin", "title": x, "cancellable": false}),
                    (0, 1) => json!({"kind": "report", "message": x}),
                    (0, _) => json!({"kind": "end"}),
                    (1, 0) => json!({"kind": "begin", "title": x, "cancellable": true, "message": "b"}),
                    (1, 1) => json!({"kind": "report", "cancellable": flag}),
                    (1, 2) => json!({"kind": "report", "cancellable": maybe, "message": "m2"}),
                    (1, _) => json!({"kind": "end", "message": "done"}),
                    (2, 0) => json!({"kind": "begin", "title": x, "cancellable": false, "percentage": percent(t, 40)}),
                    (2, 1) => json!({"kind": "report", "percentage": percent(t, 41)}),
                    (2, 2) => json!({"kind": "report", "percentage": percent(t, 42), "message": x}),
                    (2, _) => json!({"kind": "end"}),
                    (3, 0) => json!({"kind": "begin", "title": x, "cancellable": true, "percentage": percent(t, 40)}),
                    (3, 1) => json!({"kind": "report", "percentage": percent(t, 41), "cancellable": maybe}),
                    (3, 2) => json!({"kind": "report", "percentage": percent(t, 42), "message": "m2", "cancellable": maybe}),
                    (3, 3) => json!({"kind": "report", "message": "m3", "cancellable": maybe}),
                    (3, _) => json!({"kind": "end", "message": x}),
                    (4, 0) => json!({"kind": "begin", "title": x, "cancellable": false, "percentage": percent(t, 40), "message": "first"}),
                    (4, 1) => json!({"kind": "report", "message": "m1"}),
                    (4, _) => json!({"kind": "end", "message": ""}),
                    (5, 0) => json!({"kind": "begin", "title": x, "cancellable": true, "percentage": percent(t, 40), "message": ""}),
                    (_, _) => json!({"kind": "end"}),
                };
                let n = match number_token(t) {
                    true => json!(t),
                    false => json!(n),
                };
                ("$/progress", json!({"token": n, "value": v}))
            }
        }
    }
}

pub const PROGRESS_VARIANTS: u32 = 6;

fn maybe(t: u32) -> Option<bool> {
    [None, Some(false), Some(true)][sel(t, 44, 3) as usize]
}

fn number_token(t: u32) -> bool {
    sel(t, 45, 4) == 0
}

fn version(t: u32) -> Option<i32> {
    [None, Some(0), Some(3), Some(-1), Some(i32::MAX)][sel(t, 37, 5) as usize]
}

fn telemetry(t: u32) -> Value {
    match sel(t, 38, 3) {
        0 => json!({"t": format!("tok:{t}")}),
        1 => json!({"t": text(t), "n": [1, 2.5, {"x": {}}], "e": ""}),
        _ => json!({"a": {"b": {"c": [[format!("tok:{t}")]]}}, "big": u64::MAX, "small": i64::MIN}),
    }
}

pub async fn notify(c: &Client, k: NtfKind, t: u32) {
    let n = format!("tok:{t}");
    match k {
        NtfKind::Custom => {
            c.send_notification::<CustomNtf>(crate::methods::CustomParams { tag: n, text: opt(t, 10, || text(t)) }).await
        }
        NtfKind::LogMessage => c.log_message(typ(t).0, text(t)).await,
        NtfKind::ShowMessage => c.show_message(typ(t).0, text(t)).await,
        NtfKind::TelemetryObject => c.telemetry_event(telemetry(t)).await,
        NtfKind::TelemetryArray => c.telemetry_event((n, (), telemetry(t))).await,
        NtfKind::TelemetryScalar => c.telemetry_event(text(t)).await,
        NtfKind::Bare(0) => c.telemetry_event(()).await,
        NtfKind::Bare(1) => c.telemetry_event(Vec::<u8>::new()).await,
        NtfKind::Bare(2) => c.telemetry_event(json!({})).await,
        NtfKind::Bare(3) => c.telemetry_event(false).await,
        NtfKind::Bare(4) => c.telemetry_event(-2.5).await,
        NtfKind::Bare(5) => c.telemetry_event("").await,
        NtfKind::Bare(6) => c.log_message(MessageType::INFO, "").await,
        NtfKind::Bare(7) => c.show_message(MessageType::ERROR, String::new()).await,
        NtfKind::Bare(_) => c.log_message(MessageType::LOG, " \r\n").await,
        NtfKind::PublishDiagnostics => {
            let d = (0..sel(t, 30, 4))
                .map(|i| Diagnostic {
                    range: range(),
                    message: text(t),
                    severity: opt(t, 31 + i as u64, || [DiagnosticSeverity::ERROR, DiagnosticSeverity::WARNING, DiagnosticSeverity::INFORMATION][i as usize]),
                    code: opt(t, 35, || NumberOrString::String("E1".into())),
                    source: opt(t, 36, || "src".into()),
                    ..Default::default()
                })
                .collect();
            c.publish_diagnostics(format!("file:///{n}").parse().unwrap(), d, version(t)).await
        }
        NtfKind::Progress(..) => unreachable!(),
    }
}

/// Runs one whole progress sequence; `step(i, fut)` wraps each individual send.
pub async fn progress<H>(c: &Client, variant: u8, t: u32, hook: &H)
where
    H: Fn(u8) -> StepGuard,
{
    let (x, flag, maybe) = (text(t), sel(t, 43, 2) == 0, maybe(t));
    let token = match number_token(t) {
        true => ProgressToken::Number(t as i32),
        false => ProgressToken::String(format!("tok:{t}")),
    };
    // Each send is one step.
    macro_rules! step {
        ($i:expr, $f:expr) => {{
            let g = hook($i);
            let r = $f.await;
            g.done();
            r
        }};
    }
    let [p0, p1, p2] = [percent(t, 40), percent(t, 41), percent(t, 42)];
    match variant {
        0 => {
            let p = step!(0, c.progress(token, x.clone()).begin());
            step!(1, p.report(x));
            step!(2, p.finish());
        }
        1 => {
            let p = step!(0, c.progress(token, x).with_cancel_button().with_message("b").begin());
            step!(1, p.report(flag));
            step!(2, p.report_with_message("m2", maybe));
            step!(3, p.finish_with_message("done"));
        }
        2 => {
            let p = step!(0, c.progress(token, x.clone()).with_percentage(p0).begin());
            step!(1, p.report(p1));
            step!(2, p.report_with_message(x, p2));
            step!(3, p.finish());
        }
        3 => {
            let p = step!(0, c.progress(token, x.clone()).with_cancel_button().with_percentage(p0).begin());
            step!(1, p.report(p1, maybe));
            step!(2, p.report_with_message("m2", p2, maybe));
            let p = p.into_unbounded();
            step!(3, p.report_with_message("m3", maybe));
            step!(4, p.finish_with_message(x));
        }
        4 => {
            let p = step!(0, c.progress(token, x).with_message("first").with_percentage(p0).begin());
            let p = p.into_unbounded();
            step!(1, p.report("m1"));
            step!(2, p.finish_with_message(""));
        }
        _ => {
            let p = step!(0, c.progress(token, x).with_percentage(p0).with_message("").with_cancel_button().begin());
            step!(1, p.finish());
        }
    }
}

/// Reports the completion (or the drop) of one send.
pub struct StepGuard {
    pub f: Option<Box<dyn FnOnce(bool) + Send>>,
}

impl StepGuard {
    pub fn done(mut self) {
        if let Some(f) = self.f.take() {
            f(true)
        }
    }
}

impl Drop for StepGuard {
    fn drop(&mut self) {
        if let Some(f) = self.f.take() {
            f(false)
        }
    }
}

/// Wire params compare: absent and null are the same for parameterless requests.
pub fn params_match(expected: &Value, got: Option<&Value>) -> bool {
    match got {
        None => expected.is_null(),
        Some(g) => strip(expected) == strip(g),
    }
}

/// Drops null members: optional LSP fields may be sent as null or left out.
fn strip(v: &Value) -> Value {
    match v {
        Value::Object(o) => Value::Object(
            o.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), strip(v))).collect(),
        ),
        Value::Array(a) => Value::Array(a.iter().map(strip).collect()),
        v => v.clone(),
    }
}
