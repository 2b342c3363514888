//! A tiny hand-polled session: in-memory pipes, a gated backend, a frame reader.
#![allow(dead_code)]
use std::collections::{HashMap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

pub use serde_json::{json, Value};
use tower_lsp::jsonrpc::{Error, Result};
use tower_lsp::lsp_types::*;
use tower_lsp::{Client, ClientSocket, LanguageServer, LspService, Server};

// ---- control block shared with the handlers

#[derive(Default)]
pub struct CtlInner {
    open: HashMap<i64, bool>,
    wakers: HashMap<i64, Vec<Waker>>,
    log: Vec<String>,
}

#[derive(Clone, Default)]
pub struct Ctl(pub Arc<Mutex<CtlInner>>);

impl Ctl {
    pub fn open(&self, g: i64) {
        let mut c = self.0.lock().unwrap();
        c.open.insert(g, true);
        for w in c.wakers.remove(&g).unwrap_or_default() {
            w.wake();
        }
    }
    pub fn log(&self, s: impl Into<String>) {
        self.0.lock().unwrap().log.push(s.into());
    }
    pub fn logged(&self) -> Vec<String> {
        self.0.lock().unwrap().log.clone()
    }
    /// Waits for a gate; gate 0 is always open.
    pub async fn gate(&self, g: i64) {
        let me = self.clone();
        std::future::poll_fn(move |cx| {
            let mut c = me.0.lock().unwrap();
            if g == 0 || c.open.get(&g).copied().unwrap_or(false) {
                return Poll::Ready(());
            }
            c.wakers.entry(g).or_default().push(cx.waker().clone());
            Poll::Pending
        })
        .await
    }
}

pub struct Track(Ctl, String, bool);
impl Drop for Track {
    fn drop(&mut self) {
        if !self.2 {
            self.0.log(format!("drop {}", self.1));
        }
    }
}

// ---- backend

pub enum AskClient {}
impl request::Request for AskClient {
    type Params = Value;
    type Result = i64;
    const METHOD: &'static str = "t/question";
}
pub enum TellClient {}
impl notification::Notification for TellClient {
    type Params = Value;
    const METHOD: &'static str = "t/told";
}

pub struct Backend {
    pub client: Client,
    pub ctl: Ctl,
}

impl Backend {
    async fn step(&self, what: &str, p: &Value) {
        let g = p["g"].as_i64().unwrap_or(0);
        let name = format!("{what} {}", p["k"]);
        self.ctl.log(format!("start {name}"));
        let mut t = Track(self.ctl.clone(), name.clone(), false);
        self.ctl.gate(g).await;
        t.2 = true;
        self.ctl.log(format!("end {name}"));
    }
    pub async fn hold(&self, p: Value) -> Result<Value> {
        self.step("hold", &p).await;
        if p["fail"].is_i64() {
            let mut e = Error::invalid_params("asked to fail");
            e.data = Some(p["fail"].clone());
            return Err(e);
        }
        Ok(p["k"].clone())
    }
    pub async fn note(&self, p: Value) {
        self.step("note", &p).await;
    }
    pub async fn bare(&self) -> Result<Value> {
        self.ctl.log("bare");
        Ok(json!("bare"))
    }
    /// Sends `n` requests to the client one after another and returns what came back.
    pub async fn ask(&self, p: Value) -> Result<Value> {
        let mut out = vec![];
        for _ in 0..p["n"].as_i64().unwrap_or(1) {
            out.push(match self.client.send_request::<AskClient>(p["k"].clone()).await {
                Ok(v) => json!(v),
                Err(e) => json!({"code": e.code.code(), "message": e.message, "data": e.data}),
            });
        }
        self.ctl.log(format!("asked {}", p["k"]));
        Ok(Value::Array(out))
    }
    /// Sends `n` notifications to the client.
    pub async fn tell(&self, p: Value) -> Result<Value> {
        for i in 0..p["n"].as_i64().unwrap_or(1) {
            self.client.send_notification::<TellClient>(json!([p["k"], i])).await;
        }
        self.ctl.log(format!("told {}", p["k"]));
        Ok(p["k"].clone())
    }
}

#[tower_lsp::async_trait]
impl LanguageServer for Backend {
    async fn initialize(&self, p: InitializeParams) -> Result<InitializeResult> {
        let o = p.initialization_options.unwrap_or(Value::Null);
        self.step("initialize", &o).await;
        if o["log"].is_string() {
            self.client.log_message(MessageType::INFO, o["log"].as_str().unwrap()).await;
        }
        if o["fail"] == json!(true) {
            return Err(Error::invalid_params("asked to fail"));
        }
        Ok(InitializeResult::default())
    }
    async fn initialized(&self, _: InitializedParams) {
        self.ctl.log("initialized");
    }
    async fn shutdown(&self) -> Result<()> {
        self.ctl.log("shutdown");
        Ok(())
    }
    async fn did_open(&self, p: DidOpenTextDocumentParams) {
        self.ctl.log(format!("open {}", p.text_document.text));
    }
    async fn did_change(&self, p: DidChangeTextDocumentParams) {
        self.ctl.log(format!("change {}", p.text_document.version));
    }
    async fn execute_command(&self, p: ExecuteCommandParams) -> Result<Option<Value>> {
        self.ctl.log(format!("command {}", p.command));
        Ok(Some(json!(p.command)))
    }
}

pub fn service(ctl: &Ctl) -> (LspService<Backend>, ClientSocket, Client) {
    let mut handle = None;
    let ctl = ctl.clone();
    let (service, socket) = LspService::build(|client| {
        handle = Some(client.clone());
        Backend { client, ctl }
    })
    .custom_method("t/hold", Backend::hold)
    .custom_method("t/note", Backend::note)
    .custom_method("t/bare", Backend::bare)
    .custom_method("t/ask", Backend::ask)
    .custom_method("t/tell", Backend::tell)
    .finish();
    (service, socket, handle.unwrap())
}

// ---- pipes

#[derive(Default)]
pub struct PipeInner {
    data: VecDeque<u8>,
    chunks: VecDeque<usize>,
    eof: bool,
    fail: bool,
    waker: Option<Waker>,
}
#[derive(Clone, Default)]
pub struct Input(Arc<Mutex<PipeInner>>);
impl Input {
    pub fn push(&self, b: &[u8]) {
        let mut p = self.0.lock().unwrap();
        p.data.extend(b);
        if !b.is_empty() {
            p.chunks.push_back(b.len());
        }
        if let Some(w) = p.waker.take() {
            w.wake()
        }
    }
    pub fn close(&self) {
        let mut p = self.0.lock().unwrap();
        p.eof = true;
        if let Some(w) = p.waker.take() {
            w.wake()
        }
    }
    pub fn fail(&self) {
        self.0.lock().unwrap().fail = true;
        self.close();
    }
    /// The bytes which have not been read yet.
    pub fn left(&self) -> usize {
        self.0.lock().unwrap().data.len()
    }
    fn read(&self, cx: &mut Context<'_>, max: usize) -> Poll<std::io::Result<Vec<u8>>> {
        let mut p = self.0.lock().unwrap();
        if let Some(n) = p.chunks.front().copied() {
            let k = n.min(max);
            if k == n {
                p.chunks.pop_front();
            } else {
                p.chunks[0] = n - k;
            }
            return Poll::Ready(Ok(p.data.drain(..k).collect()));
        }
        if p.fail {
            return Poll::Ready(Err(std::io::ErrorKind::ConnectionReset.into()));
        }
        if p.eof {
            return Poll::Ready(Ok(vec![]));
        }
        p.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

#[derive(Default)]
pub struct OutInner {
    buffered: Vec<u8>,
    visible: Vec<u8>,
    stalled: bool,
    /// At most so many bytes per write; 0 for no limit.
    max: usize,
    fail: bool,
    waker: Option<Waker>,
}
#[derive(Clone, Default)]
pub struct Output(pub Arc<Mutex<OutInner>>);
impl Output {
    pub fn stall(&self, on: bool) {
        let mut o = self.0.lock().unwrap();
        o.stalled = on;
        if let Some(w) = o.waker.take() {
            w.wake()
        }
    }
    pub fn max_write(&self, n: usize) {
        self.0.lock().unwrap().max = n;
    }
    pub fn fail(&self) {
        self.0.lock().unwrap().fail = true;
        self.stall(false);
    }
    pub fn take(&self) -> Vec<u8> {
        std::mem::take(&mut self.0.lock().unwrap().visible)
    }
    fn write(&self, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        let mut o = self.0.lock().unwrap();
        if o.fail {
            return Poll::Ready(Err(std::io::ErrorKind::BrokenPipe.into()));
        }
        if o.stalled {
            o.waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = if o.max == 0 { b.len() } else { b.len().min(o.max) };
        o.buffered.extend(&b[..n]);
        Poll::Ready(Ok(n))
    }
    fn flush(&self, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        let mut o = self.0.lock().unwrap();
        if o.fail {
            return Poll::Ready(Err(std::io::ErrorKind::BrokenPipe.into()));
        }
        if o.stalled {
            o.waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let b = std::mem::take(&mut o.buffered);
        o.visible.extend(b);
        Poll::Ready(Ok(()))
    }
}
impl tokio::io::AsyncRead for Input {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        self.read(cx, buf.remaining()).map_ok(|b| buf.put_slice(&b))
    }
}
impl tokio::io::AsyncWrite for Output {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        self.write(cx, b)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        self.flush(cx)
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        self.flush(cx)
    }
}

// ---- session

pub struct Flag(pub AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}

/// A future polled by hand, only when it was woken.
pub struct Task<T> {
    fut: Option<Pin<Box<dyn Future<Output = T> + Send>>>,
    flag: Arc<Flag>,
    pub out: Option<T>,
}
impl<T> Task<T> {
    pub fn new(f: impl Future<Output = T> + Send + 'static) -> Self {
        Task { fut: Some(Box::pin(f)), flag: Arc::new(Flag(AtomicBool::new(true))), out: None }
    }
    /// Polls until it finishes or waits; fails the demo when it never stops waking itself.
    pub fn run(&mut self) -> bool {
        let mut n = 0;
        while self.flag.0.load(Ordering::SeqCst) && self.fut.is_some() {
            self.flag.0.store(false, Ordering::SeqCst);
            let w = Waker::from(self.flag.clone());
            if let Poll::Ready(v) = self.fut.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&w)) {
                self.fut = None;
                self.out = Some(v);
            }
            n += 1;
            assert!(n < 100_000, "busy loop");
        }
        self.fut.is_none()
    }
    pub fn drop_it(&mut self) {
        self.fut = None;
    }
    pub fn done(&self) -> bool {
        self.fut.is_none()
    }
}

pub fn frame(v: &Value) -> Vec<u8> {
    raw_frame(v.to_string().as_bytes())
}
pub fn raw_frame(b: &[u8]) -> Vec<u8> {
    let mut out = format!("Content-Length: {}\r\n\r\n", b.len()).into_bytes();
    out.extend(b);
    out
}

pub struct Session {
    pub task: Task<()>,
    pub input: Input,
    pub output: Output,
    pub ctl: Ctl,
    pub client: Client,
    rest: Vec<u8>,
}

impl Session {
    /// `level` 0 leaves the default.
    pub fn new(level: usize) -> Self {
        let (input, output, ctl) = (Input::default(), Output::default(), Ctl::default());
        let (service, socket, client) = service(&ctl);
        let mut server = Server::new(input.clone(), output.clone(), socket);
        if level > 0 {
            server = server.concurrency_level(level);
        }
        Session { task: Task::new(server.serve(service)), input, output, ctl, client, rest: vec![] }
    }
    /// A session which has been initialized.
    pub fn ready(level: usize) -> Self {
        let mut s = Session::new(level);
        s.send(req(json!("init"), "initialize", json!({"capabilities": {}})));
        let r = s.run();
        assert_eq!(r.len(), 1, "initialize is answered: {r:?}");
        assert!(r[0]["result"].is_object(), "initialize succeeds: {r:?}");
        s
    }
    pub fn send(&self, v: Value) {
        self.input.push(&frame(&v));
    }
    /// Runs until idle; returns the messages which reached the client.
    pub fn run(&mut self) -> Vec<Value> {
        self.task.run();
        self.rest.extend(self.output.take());
        let mut out = vec![];
        while let Some(h) = self.rest.windows(4).position(|w| w == b"\r\n\r\n") {
            let head = std::str::from_utf8(&self.rest[..h]).expect("garbled output");
            let n: usize = head
                .strip_prefix("Content-Length: ")
                .and_then(|n| n.parse().ok())
                .unwrap_or_else(|| panic!("garbled output: {head:?}"));
            if self.rest.len() < h + 4 + n {
                break;
            }
            let body: Vec<u8> = self.rest.drain(..h + 4 + n).skip(h + 4).collect();
            out.push(serde_json::from_slice(&body).expect("garbled output"));
        }
        out
    }
    pub fn leftover(&self) -> usize {
        self.rest.len()
    }
    pub fn log(&self) -> Vec<String> {
        self.ctl.logged()
    }
}

pub fn req(id: Value, method: &str, params: Value) -> Value {
    json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params})
}
pub fn note(method: &str, params: Value) -> Value {
    json!({"jsonrpc": "2.0", "method": method, "params": params})
}
pub fn ok(id: Value, result: Value) -> Value {
    json!({"jsonrpc": "2.0", "id": id, "result": result})
}
pub fn cancel(id: Value) -> Value {
    note("$/cancelRequest", json!({"id": id}))
}
pub fn code(v: &Value) -> i64 {
    v["error"]["code"].as_i64().unwrap_or(0)
}
/// The one response with this id.
pub fn find<'a>(v: &'a [Value], id: &Value) -> Option<&'a Value> {
    let mut it = v.iter().filter(|m| m.get("method").is_none() && &m["id"] == id);
    let r = it.next();
    assert!(it.next().is_none(), "two responses for id {id}: {v:?}");
    r
}
