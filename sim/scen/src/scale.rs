//! The scale scenario: sessions that are ordinary in every respect but one, which is far larger than in
//! the other scenarios: message size, session length, handlers in progress, requests to the client in
//! flight, messages sent in a row, garbage, ids, or the number of messages that are refused.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::atomic::Ordering;
use std::task::{Context, Poll, Waker};

use futures::future::join_all;
use serde_json::{json, Value};
use simcore::chooser::{Chooser, Fnv};
use tower_lsp::jsonrpc::Result as RpcResult;
use tower_lsp::lsp_types::{self, InitializeParams, InitializeResult, MessageType};
use tower_lsp::{Client, LanguageServer, LspService, Server};

use crate::alloc;
use crate::methods::MethodInfo;
use crate::runner::Outcome;
use crate::session::{guarded, Task};
use crate::world::Viol;

struct S {
    ch: Chooser,
    trace: Option<Vec<String>>,
    fp: Fnv,
    seq: u64,
    polls: u64,
    viols: Vec<Viol>,
    faults: BTreeMap<&'static str, u64>,
    probes: BTreeMap<&'static str, u64>,
    inb: Vec<u8>,
    in_pos: usize,
    eof: bool,
    in_waker: Option<Waker>,
    rcap: usize,
    out: Vec<u8>,
    out_pos: usize,
    wcap: usize,
    /// Writes until the output pauses once.
    pause: u32,
    torn: bool,
    frames: VecDeque<Value>,
    responses: u64,
    starts: Vec<u64>,
    active: usize,
    max_active: usize,
    dropped: u64,
    open: HashMap<u64, ()>,
    waiting: HashMap<u64, Waker>,
    init_gate: bool,
    /// The output takes nothing for now.
    stalled: bool,
    out_waker: Option<Waker>,
    /// Bytes of input the server has read.
    consumed: u64,
    /// Notifications that handlers have sent.
    sent: u64,
}

thread_local! {
    static CUR: RefCell<Option<S>> = const { RefCell::new(None) };
}

fn s<R>(f: impl FnOnce(&mut S) -> R) -> R {
    let _scope = alloc::counting(false);
    CUR.with(|c| f(c.borrow_mut().as_mut().expect("harness: no scale world")))
}

impl S {
    fn ev(&mut self, k: u8, n: u64, text: impl FnOnce() -> String) {
        self.seq += 1;
        self.fp.add(&[k]);
        self.fp.add_u64(n);
        if let Some(t) = &mut self.trace {
            if t.len() < 4000 {
                let l = format!("{:>6} {}", self.seq, text());
                t.push(l);
            }
        }
    }
    fn viol(&mut self, props: &[&'static str], what: String) {
        let mut what = what;
        if what.len() > 600 {
            let cut = (0..600).rev().find(|&i| what.is_char_boundary(i)).unwrap();
            what.truncate(cut);
        }
        self.ev(b'!', 0, || format!("VIOLATION {props:?} {what}"));
        if self.viols.len() < 8 {
            self.viols.push(Viol { props: props.to_vec(), what });
        }
    }
    fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_insert(0) += 1;
    }
    fn poll_in(&mut self, cx: &mut Context<'_>, buf: &mut dyn FnMut(&[u8]), max: usize) -> Poll<()> {
        if self.in_pos == self.inb.len() {
            if self.eof {
                self.ev(b'e', 0, || "server reads end of input".into());
                return Poll::Ready(());
            }
            self.in_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = (self.inb.len() - self.in_pos).min(max).min(self.rcap);
        buf(&self.inb[self.in_pos..self.in_pos + n]);
        self.in_pos += n;
        self.consumed += n as u64;
        self.ev(b'r', n as u64, || format!("server reads {n} bytes"));
        if self.in_pos == self.inb.len() {
            self.inb.clear();
            self.in_pos = 0;
        }
        Poll::Ready(())
    }
    fn poll_out(&mut self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        if self.stalled {
            self.out_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if self.pause > 0 {
            self.pause -= 1;
            if self.pause == 0 {
                self.fault("output_pause");
                self.pause = 7;
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
        }
        let n = buf.len().min(self.wcap);
        self.out.extend_from_slice(&buf[..n]);
        self.ev(b'w', n as u64, || format!("server writes {n} bytes"));
        self.parse();
        Poll::Ready(Ok(n))
    }
    fn parse(&mut self) {
        const H: &[u8] = b"Content-Length: ";
        while !self.torn {
            let b = &self.out[self.out_pos..];
            let k = b.len().min(H.len());
            if b[..k] != H[..k] {
                self.torn = true;
                let t = String::from_utf8_lossy(&b[..b.len().min(60)]).into_owned();
                return self.viol(&["C02"], format!("the output is not a stream of frames: {t:?}"));
            }
            let Some(e) = b.iter().take(64).position(|&c| c == b'\n') else { return };
            let len = b.get(H.len()..e.saturating_sub(1)).and_then(|d| std::str::from_utf8(d).ok()).and_then(|d| d.parse::<usize>().ok());
            let Some(len) = len else {
                self.torn = true;
                return self.viol(&["C02"], "bad Content-Length in the output".into());
            };
            let start = e + 3;
            if b.len() < start + len {
                return;
            }
            if &b[e - 1..start] != b"\r\n\r\n" {
                self.torn = true;
                return self.viol(&["C02"], "header not followed by an empty line".into());
            }
            let v: Result<Value, _> = serde_json::from_slice(&b[start..start + len]);
            self.out_pos += start + len;
            match v {
                Ok(v) => {
                    if v.get("method").is_none() {
                        self.responses += 1;
                    }
                    self.ev(b'F', len as u64, || format!("client receives a frame of {len} bytes: {}", brief(&v)));
                    self.frames.push_back(v);
                }
                Err(e) => {
                    self.torn = true;
                    return self.viol(&["C02"], format!("frame body is not JSON: {e}"));
                }
            }
            if self.out_pos == self.out.len() {
                self.out.clear();
                self.out_pos = 0;
            } else if self.out_pos > 1 << 20 {
                self.out.drain(..self.out_pos);
                self.out_pos = 0;
            }
        }
    }
}

fn brief(v: &Value) -> String {
    let mut t = v.to_string();
    if t.len() > 160 {
        let cut = (0..160).rev().find(|&i| t.is_char_boundary(i)).unwrap();
        t.truncate(cut);
    }
    t
}

struct In;
struct Out;

#[cfg(feature = "tokio-rt")]
mod imp {
    use super::*;
    use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
    impl AsyncRead for In {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            let max = buf.remaining();
            s(|s| s.poll_in(cx, &mut |d| buf.put_slice(d), max)).map(Ok)
        }
    }
    impl AsyncWrite for Out {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            s(|s| s.poll_out(cx, buf))
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
    }
}

#[cfg(feature = "agnostic-rt")]
mod imp {
    use super::*;
    use futures::io::{AsyncRead, AsyncWrite};
    impl AsyncRead for In {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
            let (max, mut n) = (buf.len(), 0);
            let p = s(|s| {
                s.poll_in(
                    cx,
                    &mut |d| {
                        buf[..d.len()].copy_from_slice(d);
                        n = d.len();
                    },
                    max,
                )
            });
            p.map(|_| Ok(n))
        }
    }
    impl AsyncWrite for Out {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            s(|s| s.poll_out(cx, buf))
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
    }
}

// The server's side.

enum Ask {}
impl lsp_types::request::Request for Ask {
    type Params = Value;
    type Result = Value;
    const METHOD: &'static str = "scale/ask";
}
enum Tick {}
impl lsp_types::notification::Notification for Tick {
    type Params = Value;
    const METHOD: &'static str = "scale/tick";
}

struct Srv {
    client: Client,
}

struct Active {
    done: bool,
}

impl Active {
    fn start(n: u64) -> Active {
        s(|s| {
            s.active += 1;
            s.max_active = s.max_active.max(s.active);
            s.starts.push(n);
            s.ev(b'h', n, || format!("handler {n} starts"));
        });
        Active { done: false }
    }
}

impl Drop for Active {
    fn drop(&mut self) {
        let done = self.done;
        let _scope = alloc::counting(false);
        // Nothing is recorded any more once the session is torn down.
        CUR.with(|c| {
            if let Some(s) = c.borrow_mut().as_mut() {
                s.active -= 1;
                if !done {
                    s.dropped += 1;
                }
            }
        })
    }
}

struct Gate(u64);
impl Future for Gate {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        s(|s| {
            if s.open.remove(&self.0).is_some() {
                s.waiting.remove(&self.0);
                return Poll::Ready(());
            }
            s.waiting.insert(self.0, cx.waker().clone());
            Poll::Pending
        })
    }
}

const INIT: u64 = u64::MAX;

#[tower_lsp::async_trait]
impl LanguageServer for Srv {
    async fn initialize(&self, _: InitializeParams) -> RpcResult<InitializeResult> {
        let mut a = Active::start(INIT);
        if s(|s| s.init_gate) {
            Gate(INIT).await;
        }
        a.done = true;
        Ok(InitializeResult::default())
    }
    async fn shutdown(&self) -> RpcResult<()> {
        let mut a = Active::start(INIT - 1);
        a.done = true;
        Ok(())
    }
}

fn answer_to(k: u64) -> Value {
    json!({"k": k.wrapping_mul(7) + 3})
}

impl Srv {
    async fn op(&self, p: Value) -> RpcResult<Value> {
        let n = p["n"].as_u64().expect("harness: op without n");
        let mut a = Active::start(n);
        let r = match p["op"].as_str().expect("harness: no op") {
            "echo" => json!({"n": n, "data": p["data"]}),
            "hash" => json!({"n": n, "hash": hash(p["data"].as_str().unwrap_or("?"))}),
            "make" => json!({"n": n, "data": text(p["size"].as_u64().unwrap() as usize)}),
            "hold" => {
                Gate(n).await;
                json!({"n": n})
            }
            "ask" => {
                let got = self.client.send_request::<Ask>(json!({"k": n})).await;
                json!({"n": n, "got": got.unwrap_or_else(|e| json!({"error": e.to_string()}))})
            }
            "asks" => {
                let k = p["count"].as_u64().unwrap();
                let all = join_all((0..k).map(|i| self.client.send_request::<Ask>(json!({"k": i})))).await;
                let bad = all.iter().enumerate().find(|(i, r)| r.as_ref().ok() != Some(&answer_to(*i as u64)));
                json!({"n": n, "bad": bad.map(|(i, r)| format!("request {i} resolved to {r:?}"))})
            }
            "bigask" => {
                let got = self.client.send_request::<Ask>(json!({"k": n})).await;
                json!({"n": n, "hash": got.map(|v| hash(v.as_str().unwrap_or("?"))).unwrap_or(0)})
            }
            "flood" => {
                for i in 0..p["count"].as_u64().unwrap() {
                    self.client.send_notification::<Tick>(json!({"s": n, "i": i})).await;
                    s(|s| s.sent += 1);
                }
                json!({"n": n})
            }
            "biglog" => {
                self.client.log_message(MessageType::INFO, text(p["size"].as_u64().unwrap() as usize)).await;
                json!({"n": n})
            }
            "fail" => return Err(tower_lsp::jsonrpc::Error::invalid_params(n.to_string())),
            "dropask" => {
                // The request is sent, but nobody waits for its response.
                let mut fut = Box::pin(self.client.send_request::<Ask>(json!({"k": n})));
                let _ = futures::poll!(&mut fut);
                json!({"n": n})
            }
            "lazyask" => {
                // Nothing is sent at all.
                let mut c = self.client.clone();
                let id = c.next_request_id();
                drop(tower::Service::call(&mut c, tower_lsp::jsonrpc::Request::build("scale/ask").id(id).finish()));
                json!({"n": n})
            }
            x => panic!("harness: op {x}"),
        };
        a.done = true;
        Ok(r)
    }
    async fn note(&self, p: Value) {
        let mut a = Active::start(p["n"].as_u64().expect("harness: note without n"));
        a.done = true;
    }
}

/// A text which needs escapes, has multi-byte characters and looks like a header here and there.
fn text(size: usize) -> String {
    const P: &str = "lorem ipsum dolor sit amet, consectetur adipiscing elit 0123456789 \"quoted\" \\ é ☃ 𝄞 Content-Length: 4\r\n\r\n{}[] ";
    let mut t = String::with_capacity(size + P.len());
    while t.len() + P.len() < size {
        t.push_str(P);
        if t.len() % 4096 < P.len() {
            t.push_str(&t.len().to_string());
        }
    }
    while t.len() < size {
        t.push('x');
    }
    t
}

fn hash(t: &str) -> u64 {
    let mut f = Fnv::default();
    f.add(t.as_bytes());
    f.add_u64(t.len() as u64);
    f.0 >> 12
}

// The client's side.

struct Sim {
    task: Task,
    level: usize,
    stop: bool,
    dead: u32,
    harness: Option<String>,
    /// What a session that stands still or panics breaks here.
    about: &'static [&'static str],
    reqs: u64,
}

impl Sim {
    fn run(&mut self) {
        while !self.stop && self.task.runnable() {
            self.task.flag.woken.store(false, Ordering::Relaxed);
            let before = s(|s| {
                s.polls += 1;
                s.seq
            });
            let task = &mut self.task;
            let r = guarded(|| {
                let mut cx = Context::from_waker(&task.waker);
                let _scope = alloc::counting(true);
                task.fut.as_mut().unwrap().as_mut().poll(&mut cx)
            });
            match r {
                Ok(Poll::Ready(())) => {
                    self.task.fut = None;
                    s(|s| s.ev(b'x', 0, || "serve() returns".into()));
                }
                Ok(Poll::Pending) => {}
                Err(p) if p.contains("harness:") => {
                    self.stop = true;
                    self.harness = Some(p);
                }
                Err(p) => {
                    self.stop = true;
                    let mut a = self.about.to_vec();
                    a.push("C13");
                    s(|s| s.viol(&a, format!("panic: {p}")));
                }
            }
            self.dead = if s(|s| s.seq) == before { self.dead + 1 } else { 0 };
            if self.dead > 3000 {
                self.stop = true;
                s(|s| s.viol(&["C20"], "the server spins: thousands of polls without any progress".into()));
            }
        }
    }
    fn feed(&mut self, b: &[u8]) {
        s(|s| {
            s.inb.extend_from_slice(b);
            s.ev(b'c', b.len() as u64, || format!("client writes {} bytes", b.len()));
            if let Some(k) = s.in_waker.take() {
                k.wake();
            }
        });
        self.run();
    }
    fn send(&mut self, v: Value) {
        self.feed(&frame(&v));
    }
    fn take(&mut self) -> Vec<Value> {
        s(|s| s.frames.drain(..).collect())
    }
    fn fail(&mut self, props: &[&'static str], what: String) {
        self.stop = true;
        s(|s| s.viol(props, what));
    }
    /// Exactly these messages have arrived since the last call, in this order.
    fn expect(&mut self, props: &[&'static str], when: &str, want: &[Value]) {
        if self.stop {
            return;
        }
        let got = self.take();
        if let Some(i) = (0..got.len().max(want.len())).find(|&i| got.get(i) != want.get(i)) {
            let t = |v: Option<&Value>| v.map_or("nothing".into(), brief);
            self.fail(props, format!("{when}: {} messages arrived instead of {}; message {i} is {} instead of {}", got.len(), want.len(), t(got.get(i)), t(want.get(i))));
        }
    }
    /// Exactly these messages have arrived since the last call, in any order.
    fn expect_set(&mut self, props: &[&'static str], when: &str, want: &[Value]) {
        if self.stop {
            return;
        }
        let mut got = self.take();
        for v in &mut got {
            // The texts of errors are nobody's business.
            if let Some(e) = v.get_mut("error").and_then(|e| e.as_object_mut()) {
                e.retain(|k, _| k == "code");
            }
        }
        let mut want = want.to_vec();
        got.sort_by_cached_key(|v| v.to_string());
        want.sort_by_cached_key(|v| v.to_string());
        if let Some(i) = (0..got.len().max(want.len())).find(|&i| got.get(i) != want.get(i)) {
            let t = |v: Option<&Value>| v.map_or("nothing".into(), brief);
            self.fail(props, format!("{when}: {} messages arrived instead of {}; for instance {} instead of {}", got.len(), want.len(), t(got.get(i)), t(want.get(i))));
        }
    }
    fn init(&mut self) {
        self.send(json!({"jsonrpc": "2.0", "id": "init", "method": "initialize", "params": {"capabilities": {}}}));
        self.expect(&["C08", "C03"], "after initialize", &[ok(json!("init"), json!({"capabilities": {}}))]);
    }
    fn open(&mut self, n: u64) {
        s(|s| {
            s.open.insert(n, ());
            if let Some(k) = s.waiting.get(&n) {
                k.wake_by_ref();
            }
        });
    }
    fn end(&mut self) {
        if self.stop {
            return;
        }
        s(|s| {
            s.eof = true;
            if let Some(k) = s.in_waker.take() {
                k.wake();
            }
        });
        self.run();
        if !self.stop && self.task.fut.is_some() {
            self.fail(&["C12"], "serve() has not returned after the end of input".into());
        }
    }
    /// An ordinary request is still answered.
    fn alive(&mut self, props: &[&'static str]) {
        self.reqs += 1;
        let id = format!("alive{}", self.reqs);
        self.send(req(json!(id), json!({"op": "echo", "n": 0, "data": "x"})));
        self.expect(props, "an ordinary request afterwards", &[ok(json!(id), json!({"n": 0, "data": "x"}))]);
    }
}

fn frame(v: &Value) -> Vec<u8> {
    let b = v.to_string();
    let mut f = format!("Content-Length: {}\r\n\r\n", b.len()).into_bytes();
    f.extend_from_slice(b.as_bytes());
    f
}
fn req(id: Value, p: Value) -> Value {
    json!({"jsonrpc": "2.0", "id": id, "method": "op", "params": p})
}
fn ok(id: Value, r: Value) -> Value {
    json!({"jsonrpc": "2.0", "id": id, "result": r})
}
fn is_err(v: &Value, id: &Value, code: i64) -> bool {
    &v["id"] == id && v["error"]["code"] == code && v.get("result").is_none()
}

const KINDS: [&str; 14] =
    ["giant_in", "giant_out", "giant_log", "giant_reply", "long", "wide", "asks", "flood", "garbage", "ids", "empties", "storm", "memory", "stall"];

fn kinds_of(focus: &str) -> &'static [(&'static str, u32)] {
    match focus {
        "C01" => &[("giant_in", 3), ("giant_reply", 1), ("empties", 2)],
        "C02" => &[("giant_out", 3), ("giant_log", 1), ("flood", 2)],
        "C03" => &[("long", 3), ("ids", 2), ("giant_out", 1), ("giant_in", 1), ("wide", 1)],
        "C04" => &[("giant_in", 1), ("giant_out", 1), ("ids", 2), ("storm", 2), ("long", 1)],
        "C05" => &[("wide", 3), ("long", 1)],
        "C06" => &[("long", 3), ("wide", 1)],
        "C07" => &[("wide", 2), ("storm", 3), ("ids", 1)],
        "C08" | "C09" | "C10" => &[("storm", 1)],
        "C11" => &[("wide", 1)],
        "C12" => &[("wide", 1), ("flood", 1), ("long", 1)],
        "C14" => &[("asks", 3), ("long", 1), ("giant_reply", 1)],
        "C15" => &[("storm", 2), ("asks", 1)],
        "C17" => &[("flood", 3), ("giant_log", 1)],
        "C18" => &[("garbage", 2), ("storm", 2)],
        "C20" => &[("flood", 1), ("asks", 1), ("long", 1), ("wide", 1)],
        "C25" => &[("memory", 3), ("stall", 1)],
        "C22" => &[("storm", 3), ("ids", 1), ("long", 1)],
        _ => &[("giant_in", 1), ("giant_out", 1), ("giant_log", 1), ("giant_reply", 1), ("long", 2), ("wide", 2), ("asks", 2), ("flood", 2), ("garbage", 2), ("ids", 2), ("empties", 1), ("storm", 4), ("memory", 2), ("stall", 1)],
    }
}

pub fn run(focus: &'static str, mut ch: Chooser, trace: bool, _: &'static [MethodInfo]) -> Outcome {
    let kinds = kinds_of(focus);
    let ws: Vec<u32> = kinds.iter().map(|k| k.1).collect();
    let kind = kinds[ch.weighted(&ws)].0;
    assert!(KINDS.contains(&kind));
    let big = kind.starts_with("giant");
    let rcap = if big { [usize::MAX, 65_536, 10_000][ch.below(3) as usize] } else { [usize::MAX, 8192, 1000, 77][ch.below(4) as usize] };
    let wcap = if big { [usize::MAX, 65_536, 10_000][ch.below(3) as usize] } else { [usize::MAX, 8192, 1000, 77][ch.below(4) as usize] };
    let pause = if ch.chance(30, 100) { 3 } else { 0 };
    let level = match kind {
        "wide" => Some([64, 100, 128, 200, 256, 300, 1000, 1024, 4096][ch.below(9) as usize] + [0, 0, 1][ch.below(3) as usize]),
        _ => match ch.below(4) {
            0 => None,
            1 => Some(2usize),
            2 => Some(5),
            _ => Some([16, 64, usize::MAX][ch.below(3) as usize]),
        },
    };
    let st = S {
        ch,
        trace: trace.then(Vec::new),
        fp: Fnv::default(),
        seq: 0,
        polls: 0,
        viols: vec![],
        faults: BTreeMap::new(),
        probes: BTreeMap::new(),
        inb: vec![],
        in_pos: 0,
        eof: false,
        in_waker: None,
        rcap,
        out: vec![],
        out_pos: 0,
        wcap,
        pause,
        torn: false,
        frames: VecDeque::new(),
        responses: 0,
        starts: vec![],
        active: 0,
        max_active: 0,
        dropped: 0,
        open: HashMap::new(),
        waiting: HashMap::new(),
        init_gate: false,
        stalled: false,
        out_waker: None,
        consumed: 0,
        sent: 0,
    };
    CUR.with(|c| *c.borrow_mut() = Some(st));
    s(|s| {
        if rcap != usize::MAX {
            s.fault("input_short_reads");
        }
        if wcap != usize::MAX {
            s.fault("output_short_writes");
        }
        *s.probes.entry(KINDS[KINDS.iter().position(|k| *k == kind).unwrap()]).or_insert(0) += 1;
    });
    let r = guarded(|| {
        let (service, socket) = LspService::build(|client| Srv { client }).custom_method("op", Srv::op).custom_method("note", Srv::note).finish();
        let mut server = Server::new(In, Out, socket);
        if let Some(l) = level {
            server = server.concurrency_level(l);
        }
        let mut sim =
            Sim { task: Task::new(Box::pin(server.serve(service))), level: level.unwrap_or(4), stop: false, dead: 0, harness: None, about: &[], reqs: 0 };
        match kind {
            "giant_in" | "giant_out" | "giant_log" | "giant_reply" => giant(&mut sim, kind),
            "long" => long(&mut sim),
            "wide" => wide(&mut sim),
            "asks" => asks(&mut sim),
            "flood" => flood(&mut sim),
            "garbage" => garbage(&mut sim),
            "ids" => ids(&mut sim),
            "empties" => empties(&mut sim),
            "memory" => memory(&mut sim),
            "stall" => stall(&mut sim),
            _ => storm(&mut sim, focus),
        }
        let (max, level) = (s(|s| s.max_active), sim.level);
        if max > level {
            s(|s| s.viol(&["C05"], format!("{max} handlers were in progress at a time with concurrency level {level}")));
        }
        sim
    });
    let mut o = Outcome::default();
    let st = CUR.with(|c| c.borrow_mut().take()).unwrap();
    match r {
        Ok(sim) => {
            o.harness = sim.harness.clone();
            drop(guarded(move || drop(sim)));
        }
        Err(p) => o.harness = Some(p),
    }
    o.steps = st.seq;
    o.polls = st.polls;
    o.events = st.seq;
    let mut fp = st.fp;
    fp.add_u64(st.viols.len() as u64);
    o.fp = fp.0;
    o.log = st.ch.log;
    o.nontrivial = st.starts.len() >= 2 && st.responses >= 2;
    o.summary = json!({"kind": kind, "handlers_started": st.starts.len(), "responses": st.responses, "max_concurrent_handlers": st.max_active, "polls": st.polls, "events": st.seq});
    o.viols = st.viols;
    o.faults = st.faults;
    o.probes = st.probes;
    o.trace = st.trace.unwrap_or_default();
    o
}

fn pick<T: Copy>(l: &[T]) -> T {
    l[s(|s| s.ch.below(l.len() as u32)) as usize]
}
fn below(n: u32) -> u64 {
    s(|s| s.ch.below(n)) as u64
}
/// A cheap generator for the many small decisions of a run, seeded by one choice.
fn lcg() -> impl FnMut(u64) -> u64 {
    let mut x = below(1 << 30) + 1;
    move |n| {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (x >> 33) % n
    }
}

fn giant(m: &mut Sim, kind: &str) {
    let mb = [2, 6, 9, 17, 33, 68][s(|s| s.ch.weighted(&[20, 30, 20, 14, 3, 1]))];
    let size = (mb << 20) + below(5000) as usize;
    m.about = match kind {
        "giant_in" => &["C01", "C03", "C04"],
        "giant_out" => &["C02", "C03", "C04"],
        "giant_log" => &["C02", "C17"],
        _ => &["C01", "C14"],
    };
    let about = m.about;
    m.init();
    m.alive(about);
    if m.stop {
        return;
    }
    match kind {
        "giant_in" => {
            let t = text(size);
            let h = hash(&t);
            let mut b = frame(&req(json!(1), json!({"op": "hash", "n": 1, "data": t})));
            drop(t);
            b.extend(frame(&req(json!(2), json!({"op": "echo", "n": 2, "data": 5}))));
            m.feed(&b);
            m.expect_set(about, &format!("a request of {size} bytes and one behind it"), &[ok(json!(1), json!({"n": 1, "hash": h})), ok(json!(2), json!({"n": 2, "data": 5}))]);
        }
        "giant_out" => {
            let mut b = frame(&req(json!(1), json!({"op": "make", "n": 1, "size": size})));
            b.extend(frame(&req(json!(2), json!({"op": "echo", "n": 2, "data": 5}))));
            m.feed(&b);
            m.expect_set(about, &format!("a result of {size} bytes and one behind it"), &[ok(json!(1), json!({"n": 1, "data": text(size)})), ok(json!(2), json!({"n": 2, "data": 5}))]);
        }
        "giant_log" => {
            m.send(req(json!(1), json!({"op": "biglog", "n": 1, "size": size})));
            let want = json!({"jsonrpc": "2.0", "method": "window/logMessage", "params": {"type": 3, "message": text(size)}});
            m.expect_set(about, &format!("a log message of {size} bytes"), &[want, ok(json!(1), json!({"n": 1}))]);
        }
        _ => {
            m.send(req(json!(1), json!({"op": "bigask", "n": 1})));
            let f = m.take();
            if f.len() != 1 || f[0]["method"] != "scale/ask" {
                return m.fail(about, "the request to the client has not arrived".into());
            }
            let t = text(size);
            let h = hash(&t);
            m.send(ok(f[0]["id"].clone(), json!(t)));
            m.expect_set(about, &format!("a reply of {size} bytes"), &[ok(json!(1), json!({"n": 1, "hash": h}))]);
        }
    }
    m.alive(about);
    m.end();
}

/// A long session in which one request of either side stays open from start to end.
fn long(m: &mut Sim) {
    let total = [300u64, 1200, 4000, 20_000, 70_000][s(|s| s.ch.weighted(&[20, 40, 30, 4, 1]))];
    let window = pick(&[1u64, 5, 25, 40]);
    let lists = s(|s| s.ch.chance(50, 100));
    m.about = &["C03", "C14", "C20"];
    m.init();
    // With a level of at least 5 both stay in progress for good, else just the first.
    let two = m.level >= 5;
    m.send(req(json!("first"), json!({"op": "hold", "n": 1})));
    if two {
        m.send(req(json!("second"), json!({"op": "ask", "n": 2})));
    }
    let first = m.take();
    if m.stop {
        return;
    }
    if two && (first.len() != 1 || first[0]["method"] != "scale/ask" || first[0]["params"] != json!({"k": 2})) {
        return m.fail(&["C14", "C16"], "the request to the client has not arrived".into());
    }
    let kept = first.first().map(|f| f["id"].clone());
    let mut rnd = lcg();
    let mut n = 10u64;
    let mut sent_order = s(|s| s.starts.clone());
    let mut want: HashMap<u64, Value> = HashMap::new();
    let mut buf = vec![];
    let reuse = rnd(2) == 0;
    let mut done = 0u64;
    while done < total && !m.stop {
        // A burst of messages, then everything that has to be answered is.
        buf.clear();
        for _ in 0..1 + rnd(window) {
            n += 1;
            done += 1;
            let id = if reuse { n % 97 + 10 } else { n };
            sent_order.push(n);
            match rnd(10) {
                0..=4 => {
                    if want.contains_key(&id) {
                        sent_order.pop();
                        continue;
                    }
                    want.insert(id, json!({"n": n, "data": n * 3}));
                    buf.extend(frame(&req(json!(id), json!({"op": "echo", "n": n, "data": n * 3}))));
                }
                5..=7 => {
                    if want.contains_key(&id) {
                        sent_order.pop();
                        continue;
                    }
                    want.insert(id, json!({"n": n, "got": answer_to(n)}));
                    buf.extend(frame(&req(json!(id), json!({"op": "ask", "n": n}))));
                }
                _ => buf.extend(frame(&json!({"jsonrpc": "2.0", "method": "note", "params": {"n": n}}))),
            }
        }
        m.feed(&std::mem::take(&mut buf));
        loop {
            let f = m.take();
            if f.is_empty() || m.stop {
                break;
            }
            let mut replies = vec![];
            for v in f {
                if v["method"] == "scale/ask" {
                    if kept.as_ref() == Some(&v["id"]) {
                        return m.fail(&["C14", "C19"], format!("request id {} is used again while its request is still open", v["id"]));
                    }
                    replies.push(ok(v["id"].clone(), answer_to(v["params"]["k"].as_u64().unwrap_or(0))));
                } else {
                    let id = v["id"].as_u64().unwrap_or(0);
                    match want.remove(&id) {
                        Some(w) if v == ok(json!(id), w.clone()) => {}
                        w => return m.fail(&["C03", "C04", "C14", "C22"], format!("response {} instead of {:?}", brief(&v), w)),
                    }
                }
            }
            if rnd(2) == 0 {
                replies.reverse();
            }
            if replies.is_empty() {
                continue;
            }
            if lists {
                let b: Vec<u8> = replies.iter().flat_map(frame).collect();
                m.feed(&b);
            } else {
                for r in replies {
                    m.send(r);
                }
            }
        }
        if !want.is_empty() && !m.stop {
            return m.fail(&["C20", "C03"], format!("{} requests have no response although nothing is left to do", want.len()));
        }
        if sent_order.len() > 5000 || done >= total {
            let got = s(|s| std::mem::take(&mut s.starts));
            if !m.stop && got != sent_order {
                let i = (0..got.len().max(sent_order.len())).find(|&i| got.get(i) != sent_order.get(i)).unwrap();
                return m.fail(&["C06", "C04"], format!("handler {:?} starts where {:?} was sent", got.get(i), sent_order.get(i)));
            }
            sent_order.clear();
            s(|s| s.starts.clear());
        }
    }
    if m.stop {
        return;
    }
    s(|s| s.starts.extend([1, 2]));
    if let Some(id) = kept {
        m.send(ok(id, answer_to(2)));
        m.expect(&["C14"], "the reply to the first request of the session", &[ok(json!("second"), json!({"n": 2, "got": answer_to(2)}))]);
    }
    m.open(1);
    m.run();
    m.expect(&["C03"], "the first request of the session may go on", &[ok(json!("first"), json!({"n": 1}))]);
    m.end();
}

/// As many handlers in progress as allowed, and some messages more.
fn wide(m: &mut Sim) {
    m.about = &["C03", "C05", "C20"];
    m.init();
    let level = m.level as u64;
    let extra = below(40);
    let total = level + extra;
    s(|s| s.starts.clear());
    let all: Vec<u8> = (0..total).flat_map(|i| frame(&req(json!(i), json!({"op": "hold", "n": i})))).collect();
    m.feed(&all);
    let (started, active) = s(|s| (s.starts.clone(), s.active));
    if m.stop {
        return;
    }
    if active as u64 != level {
        return m.fail(&["C05"], format!("{active} handlers are in progress with concurrency level {level} and {total} requests received"));
    }
    if started != (0..level).collect::<Vec<_>>() {
        return m.fail(&["C06"], "handlers start in another order than their messages".into());
    }
    m.expect(&["C03"], "while all handlers wait", &[]);
    let mut rnd = lcg();
    let mut x = Model { level: level as usize, running: (0..level).collect(), queue: (level..total).collect(), cancelled: vec![], opened: Default::default(), answers: vec![] };
    // Some are cancelled.
    for _ in 0..1 + below(4) {
        let id = rnd(total);
        m.send(json!({"jsonrpc": "2.0", "method": "$/cancelRequest", "params": {"id": id}}));
        x.cancel(id);
        let want = std::mem::take(&mut x.answers);
        m.expect_set(&["C07"], &format!("cancelling request {id} among {total}"), &want);
        x.agree(m, &["C05", "C07"]);
    }
    if m.stop {
        return;
    }
    if s(|s| s.ch.chance(30, 100)) {
        m.send(json!({"jsonrpc": "2.0", "method": "exit"}));
        if m.stop {
            return;
        }
        if m.task.fut.is_some() {
            return m.fail(&["C11", "C12"], "serve() has not returned after exit".into());
        }
        let (active, f) = (s(|s| s.active), m.take());
        if active != 0 {
            return m.fail(&["C11"], format!("{active} handlers are still in progress after exit"));
        }
        let mut seen = std::collections::HashSet::new();
        for v in f {
            let id = v["id"].as_u64().unwrap_or(u64::MAX);
            if !is_err(&v, &json!(id), -32800) || !x.running.contains(&id) && !x.queue.contains(&id) || !seen.insert(id) {
                return m.fail(&["C11", "C03"], format!("after exit the client receives {}", brief(&v)));
            }
        }
        return;
    }
    let mut left: Vec<u64> = x.running.iter().chain(&x.queue).copied().filter(|i| !x.cancelled.contains(i)).collect();
    while !left.is_empty() && !m.stop {
        for _ in 0..1 + rnd(left.len() as u64) {
            let k = rnd(left.len() as u64) as usize;
            let id = left.swap_remove(k);
            m.open(id);
            x.opened.insert(id);
        }
        m.run();
        x.step();
        let want = std::mem::take(&mut x.answers);
        m.expect_set(&["C03", "C05", "C20"], "some requests may finish", &want);
        x.agree(m, &["C05"]);
    }
    m.alive(&["C03", "C20"]);
    m.end();
}

/// What is in progress, waiting and answered.
struct Model {
    level: usize,
    running: std::collections::BTreeSet<u64>,
    queue: VecDeque<u64>,
    cancelled: Vec<u64>,
    opened: std::collections::HashSet<u64>,
    answers: Vec<Value>,
}

impl Model {
    fn refuse(&mut self, id: u64) {
        self.answers.push(json!({"jsonrpc": "2.0", "id": id, "error": {"code": -32800}}));
    }
    fn cancel(&mut self, id: u64) {
        if self.running.remove(&id) {
            self.refuse(id);
            self.step();
        } else if self.queue.contains(&id) {
            self.cancelled.push(id);
        }
    }
    fn step(&mut self) {
        loop {
            let done: Vec<u64> = self.running.iter().copied().filter(|i| self.opened.contains(i)).collect();
            for &id in &done {
                self.running.remove(&id);
                self.answers.push(ok(json!(id), json!({"n": id})));
            }
            let mut moved = false;
            while self.running.len() < self.level {
                let Some(id) = self.queue.pop_front() else { break };
                moved = true;
                if self.cancelled.contains(&id) {
                    self.refuse(id);
                } else {
                    self.running.insert(id);
                }
            }
            if !moved && done.is_empty() {
                return;
            }
        }
    }
    fn agree(&self, m: &mut Sim, props: &[&'static str]) {
        let active = s(|s| s.active);
        if !m.stop && active != self.running.len() {
            m.fail(props, format!("{active} handlers are in progress with concurrency level {} where {} could be", self.level, self.running.len()));
        }
    }
}

/// Many requests to the client in flight at a time.
fn asks(m: &mut Sim) {
    let count = [40u64, 300, 2000, 8000, 70_000][s(|s| s.ch.weighted(&[20, 30, 40, 8, 1]))] + below(9);
    m.about = &["C14", "C20", "C03"];
    m.init();
    m.send(req(json!(1), json!({"op": "asks", "n": 1, "count": count})));
    if m.stop {
        return;
    }
    let f = m.take();
    if f.len() as u64 != count {
        return m.fail(&["C14", "C20"], format!("{} of {count} requests have arrived at the client", f.len()));
    }
    let mut seen = HashMap::new();
    for v in &f {
        if v["method"] != "scale/ask" || seen.insert(v["id"].to_string(), v["params"]["k"].as_u64()).is_some() {
            return m.fail(&["C14", "C19"], format!("request id {} is used twice", v["id"]));
        }
    }
    let mut ks: Vec<u64> = f.iter().filter_map(|v| v["params"]["k"].as_u64()).collect();
    ks.sort();
    if ks != (0..count).collect::<Vec<_>>() {
        return m.fail(&["C14"], "the requests at the client are not those which were made".into());
    }
    let mut rnd = lcg();
    let mut order: Vec<usize> = (0..f.len()).collect();
    match rnd(3) {
        0 => order.reverse(),
        1 => {
            for i in (1..order.len()).rev() {
                order.swap(i, rnd(i as u64 + 1) as usize);
            }
        }
        _ => {}
    }
    let stray = rnd(2) == 0;
    if stray {
        s(|s| s.fault("stray_response"));
    }
    let mut b = vec![];
    for (j, &i) in order.iter().enumerate() {
        if stray && rnd(4) == 0 {
            let id = match rnd(4) {
                0 => json!(1_000_000 + j),
                1 => json!(f[i]["id"].to_string()),
                2 => Value::Null,
                _ => f[order[rnd(j as u64 + 1) as usize]]["id"].clone(),
            };
            // A second answer to a request that has been answered already, but for the last case.
            if id != f[i]["id"] {
                b.extend(frame(&ok(id, json!({"k": "stray"}))));
            }
        }
        b.extend(frame(&ok(f[i]["id"].clone(), answer_to(f[i]["params"]["k"].as_u64().unwrap()))));
    }
    m.feed(&b);
    let about: &[&str] = if stray { &["C14", "C15", "C20"] } else { &["C14", "C20"] };
    m.expect(about, &format!("{count} replies"), &[ok(json!(1), json!({"n": 1, "bad": null}))]);
    m.alive(about);
    m.end();
}

/// Handlers that send very many notifications in a row, while requests are answered.
fn flood(m: &mut Sim) {
    let count = pick(&[200u64, 1000, 3000, 3000, 10_000]);
    let senders = 1 + below(2.min(m.level as u32));
    let reqs = below(20);
    m.about = &["C17", "C20", "C02"];
    m.init();
    if s(|s| s.ch.chance(30, 100)) {
        s(|s| s.fault("output_pause"));
        s(|s| s.pause = 2);
    }
    let mut b = vec![];
    for i in 0..senders {
        b.extend(frame(&req(json!(i), json!({"op": "flood", "n": i, "count": count}))));
    }
    for i in 0..reqs {
        b.extend(frame(&req(json!(100 + i), json!({"op": "echo", "n": 100 + i, "data": i}))));
    }
    let with_end = s(|s| s.ch.chance(40, 100));
    if with_end {
        s(|s| s.eof = true);
    }
    m.feed(&b);
    if m.stop {
        return;
    }
    let mut next = vec![0u64; senders as usize];
    let mut resp = vec![];
    for v in m.take() {
        if v["method"] == "scale/tick" {
            let (k, i) = (v["params"]["s"].as_u64().unwrap_or(99) as usize, v["params"]["i"].as_u64());
            if k >= next.len() || i != Some(next[k]) {
                return m.fail(&["C17"], format!("notification {} arrives where number {:?} of its sender is due", brief(&v), next.get(k)));
            }
            next[k] += 1;
        } else {
            resp.push(v);
        }
    }
    if next.iter().any(|&n| n != count) {
        let p: &[&str] = if with_end { &["C17", "C20", "C12"] } else { &["C17", "C20"] };
        return m.fail(p, format!("{next:?} of {count} notifications per sender have arrived although nothing is left to do"));
    }
    s(|s| s.frames.extend(resp));
    let mut want: Vec<Value> = (0..senders).map(|i| ok(json!(i), json!({"n": i}))).collect();
    want.extend((0..reqs).map(|i| ok(json!(100 + i), json!({"n": 100 + i, "data": i}))));
    m.expect_set(&["C03", "C20", "C12"], "requests during a flood of notifications", &want);
    if !with_end {
        m.alive(&["C17", "C20"]);
    }
    m.end();
}

/// Very much garbage between two messages.
fn garbage(m: &mut Sim) {
    let size = pick(&[500usize, 9000, 70_000, 300_000, 1_200_000]) + below(300) as usize;
    m.about = &["C18"];
    m.init();
    m.alive(&["C18"]);
    if m.stop {
        return;
    }
    let mut rnd = lcg();
    let mut b = vec![];
    let body = rnd(4) == 0;
    if body {
        // One well-framed body that makes no sense.
        let mut t = match rnd(3) {
            0 => "x".repeat(size).into_bytes(),
            1 => format!("{{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"{}", "y".repeat(size)).into_bytes(),
            _ => vec![0xff; size],
        };
        b.extend(format!("Content-Length: {}\r\n\r\n", t.len()).into_bytes());
        b.append(&mut t);
        s(|s| s.fault("malformed_body"));
    } else {
        const LINES: [&str; 6] = ["lorem ipsum dolor\r\n", "\r\n", "{\"jsonrpc\": 2}\r\n", "X y z\n", "Content-Lengt\r\n", "\u{e9}\u{2603}\r\n"];
        b.extend("lorem ipsum dolor sit amet\r\n".bytes());
        let few = 1 + rnd(LINES.len() as u64);
        while b.len() < size {
            b.extend(LINES[rnd(few) as usize].bytes());
        }
        s(|s| s.fault("junk_lines"));
    }
    b.extend(frame(&req(json!(1), json!({"op": "echo", "n": 1, "data": 1}))));
    b.extend(frame(&req(json!(2), json!({"op": "echo", "n": 2, "data": 2}))));
    m.feed(&b);
    if m.stop {
        return;
    }
    let (e, o): (Vec<Value>, Vec<Value>) = m.take().into_iter().partition(|v| v["id"].is_null());
    if e.is_empty() || !e.iter().all(|v| is_err(v, &Value::Null, -32700)) || body && e.len() != 1 {
        return m.fail(&["C18"], format!("{size} bytes of garbage lead to {:?}", e.iter().take(5).map(brief).collect::<Vec<_>>()));
    }
    s(|s| s.frames.extend(o));
    m.expect_set(&["C18"], &format!("two requests behind {size} bytes of garbage"), &[ok(json!(1), json!({"n": 1, "data": 1})), ok(json!(2), json!({"n": 2, "data": 2}))]);
    m.alive(&["C18"]);
    m.end();
}

/// Very long ids and method names.
fn ids(m: &mut Sim) {
    let size = pick(&[60usize, 256, 300, 4100, 70_000, 600_000]);
    m.about = &["C03", "C04", "C22"];
    m.init();
    if m.level < 3 {
        // Both requests are to be in progress at a time.
        return m.alive(&["C03"]);
    }
    let base = text(size);
    let (a, b) = match below(3) {
        0 => (json!(format!("{base}1")), json!(format!("{base}2"))),
        1 => (json!(format!("1{base}")), json!(format!("2{base}"))),
        _ => (json!(base), json!(format!("{base} "))),
    };
    let p: &[&str] = &["C03", "C22"];
    m.send(req(a.clone(), json!({"op": "hold", "n": 1})));
    m.send(req(b.clone(), json!({"op": "hold", "n": 2})));
    m.expect(p, "two requests whose long ids differ in one character", &[]);
    m.send(req(a.clone(), json!({"op": "echo", "n": 3, "data": 0})));
    let f = m.take();
    if !m.stop && (f.len() != 1 || !is_err(&f[0], &a, -32600)) {
        return m.fail(&["C22"], format!("a request with an id in use leads to {:?}", f.iter().map(brief).collect::<Vec<_>>()));
    }
    m.send(json!({"jsonrpc": "2.0", "method": "$/cancelRequest", "params": {"id": b}}));
    let f = m.take();
    if !m.stop && (f.len() != 1 || !is_err(&f[0], &b, -32800)) {
        return m.fail(&["C07"], format!("cancelling a request with a long id leads to {:?}", f.iter().map(brief).collect::<Vec<_>>()));
    }
    m.send(req(b.clone(), json!({"op": "echo", "n": 4, "data": 1})));
    m.expect(p, "the id of a cancelled request again", &[ok(b.clone(), json!({"n": 4, "data": 1}))]);
    m.open(1);
    m.run();
    m.expect(p, "the other request may go on", &[ok(a.clone(), json!({"n": 1}))]);
    m.send(json!({"jsonrpc": "2.0", "id": a, "method": format!("op{base}"), "params": 1}));
    let f = m.take();
    if !m.stop && (f.len() != 1 || !is_err(&f[0], &a, -32601)) {
        return m.fail(&["C04"], format!("a long method name leads to {:?}", f.iter().map(brief).collect::<Vec<_>>()));
    }
    m.alive(p);
    m.end();
}

/// Very many empty messages in a row.
fn empties(m: &mut Sim) {
    let count = pick(&[50usize, 2000, 20_000, 100_000]);
    m.about = &["C01"];
    m.init();
    let mut b = b"Content-Length: 0\r\n\r\n".repeat(count);
    b.extend(frame(&req(json!(1), json!({"op": "echo", "n": 1, "data": 1}))));
    m.feed(&b);
    m.expect(&["C01"], &format!("a request behind {count} empty messages"), &[ok(json!(1), json!({"n": 1, "data": 1}))]);
    m.alive(&["C01"]);
    m.end();
}

/// What a session holds does not grow with what it has dealt with.
fn memory(m: &mut Sim) {
    const OPS: [&str; 23] = [
        "echo", "fail", "note", "hold", "held_cancel", "duplicate", "unknown", "unknown_note", "bad_params", "malformed", "junk", "empty", "stray", "ask",
        "ask_cancel", "dropask", "lazyask", "flood", "cancel", "again", "trait_note", "trait_request", "null_id",
    ];
    const P: &[&str] = &["C25"];
    let total = [1500u64, 4000, 12_000][s(|s| s.ch.weighted(&[60, 35, 5]))];
    let ops: Vec<&str> = (0..1 + below(3)).map(|_| pick(&OPS)).collect();
    let fresh = s(|s| s.ch.chance(60, 100));
    let state = s(|s| s.ch.weighted(&[70, 15, 15]));
    let width = pick(&[1u64, 3, 8]);
    m.about = P;
    if state != 1 {
        m.init();
    }
    if state == 2 {
        m.send(json!({"jsonrpc": "2.0", "id": "bye", "method": "shutdown"}));
        m.expect(&["C10"], "after shutdown", &[ok(json!("bye"), Value::Null)]);
    }
    let mut rnd = lcg();
    let (mut n, mut done, mut base) = (1000u64, 0u64, None);
    let mut answered = 0u64;
    let mut buf = vec![];
    while done < total && !m.stop {
        if base.is_none() && done * 3 >= total {
            base = Some((alloc::live(), done));
        }
        buf.clear();
        let mut held = vec![];
        for slot in 0..1 + rnd(width) {
            n += 1;
            done += 1;
            // An id of its own, or the same few over and over; now and then a text.
            let id = if fresh { json!(n) } else { json!(slot) };
            let id = if rnd(4) == 0 { json!(format!("id-{id}")) } else { id };
            let op = |o: &str| frame(&req(id.clone(), json!({"op": o, "n": n, "data": n, "count": 3})));
            let cancel = || frame(&json!({"jsonrpc": "2.0", "method": "$/cancelRequest", "params": {"id": id}}));
            match ops[rnd(ops.len() as u64) as usize] {
                o @ ("echo" | "fail" | "ask" | "dropask" | "lazyask" | "flood") => buf.extend(op(o)),
                "hold" => {
                    held.push(n);
                    buf.extend(op("hold"));
                }
                "held_cancel" => {
                    held.push(n);
                    buf.extend(op("hold"));
                    buf.extend(cancel());
                }
                "ask_cancel" => {
                    buf.extend(op("ask"));
                    buf.extend(cancel());
                }
                "duplicate" => {
                    held.push(n);
                    buf.extend(op("hold"));
                    buf.extend(op("echo"));
                }
                "note" => buf.extend(frame(&json!({"jsonrpc": "2.0", "method": "note", "params": {"n": n}}))),
                "unknown" => buf.extend(frame(&json!({"jsonrpc": "2.0", "id": id, "method": format!("unknown/{n}"), "params": {"n": n}}))),
                "unknown_note" => buf.extend(frame(&json!({"jsonrpc": "2.0", "method": format!("unknown/{n}"), "params": {"n": n}}))),
                "bad_params" => buf.extend(frame(&json!({"jsonrpc": "2.0", "id": id, "method": "textDocument/hover", "params": [n]}))),
                "malformed" => {
                    s(|s| s.fault("malformed_body"));
                    let t = [format!("{{\"id\":{n}"), format!("[{n}]")][rnd(2) as usize].clone();
                    buf.extend(format!("Content-Length: {}\r\n\r\n{t}", t.len()).into_bytes());
                }
                "junk" => {
                    s(|s| s.fault("junk_lines"));
                    buf.extend(format!("lorem ipsum {n}\r\n\r\n").into_bytes());
                }
                "empty" => buf.extend(b"Content-Length: 0\r\n\r\n"),
                "stray" => {
                    s(|s| s.fault("stray_response"));
                    buf.extend(frame(&ok(id, json!(n))));
                }
                "null_id" => {
                    s(|s| s.fault("stray_response"));
                    buf.extend(frame(&json!({"jsonrpc": "2.0", "id": null, "error": {"code": -1, "message": format!("{n}")}})));
                }
                "cancel" => buf.extend(cancel()),
                "again" => {
                    let method = if state == 1 { "shutdown" } else { "initialize" };
                    buf.extend(frame(&json!({"jsonrpc": "2.0", "id": id, "method": method, "params": {"capabilities": {}}})));
                }
                "trait_note" => buf.extend(frame(&json!({"jsonrpc": "2.0", "method": "textDocument/didSave", "params": {"textDocument": {"uri": format!("file:///{n}")}}}))),
                _ => buf.extend(frame(
                    &json!({"jsonrpc": "2.0", "id": id, "method": "textDocument/documentSymbol", "params": {"textDocument": {"uri": format!("file:///{n}")}}}),
                )),
            }
        }
        m.feed(&buf);
        for n in held {
            m.open(n);
        }
        m.run();
        // Requests to the client are answered, those nobody waits for any more included.
        loop {
            let f = m.take();
            if f.is_empty() || m.stop {
                break;
            }
            for v in f {
                if v["method"] == "scale/ask" {
                    answered += 1;
                    m.send(if rnd(3) == 0 { json!({"jsonrpc": "2.0", "id": v["id"], "error": {"code": 5, "message": "no"}}) } else { ok(v["id"].clone(), json!(n)) });
                }
            }
        }
        s(|s| {
            s.open.clear();
            s.waiting.clear();
            if s.starts.len() > 100 {
                s.starts.truncate(2);
            }
            if s.active != 0 {
                s.viol(&["C20", "C07"], format!("{} handlers are still in progress when all has been said", s.active));
            }
        });
        m.stop |= s(|s| !s.viols.is_empty());
    }
    if m.stop {
        return;
    }
    let (base, from) = base.unwrap();
    let (grown, count) = (alloc::live() - base, done - from);
    s(|s| s.ev(b'm', 0, || format!("{grown} bytes more are held than {count} messages before")));
    if grown > 4096 + 3 * count as isize {
        return m.fail(P, format!("the server holds {grown} bytes more after {count} exchanges ({}) that are over and done, {answered} requests to the client being answered", ops.join(", ")));
    }
    if state == 0 {
        m.alive(P);
    }
    m.end();
}

/// A server that cannot go on stops reading, and its handlers wait, rather than piling up what comes in.
fn stall(m: &mut Sim) {
    const P: &[&str] = &["C25"];
    const TOTAL: u64 = 12_000;
    const MANY: u64 = 6000;
    m.about = P;
    let mut kind = pick(&["echo", "unknown", "malformed", "refused", "flood", "held", "held_notes", "fail"]);
    if kind.starts_with("held") && m.level > 64 {
        kind = "echo";
    }
    if kind != "refused" {
        m.init();
    }
    let held = kind.starts_with("held");
    if !held {
        s(|s| {
            s.stalled = true;
            s.fault("output_stall");
        });
    }
    if kind == "flood" {
        m.send(req(json!(1), json!({"op": "flood", "n": 1, "count": TOTAL})));
        let sent = s(|s| s.sent);
        if !m.stop && sent > MANY {
            return m.fail(P, format!("{sent} notifications were sent although the client reads none"));
        }
    } else {
        for k in 0..if held { m.level as u64 } else { 0 } {
            m.send(req(json!(format!("held{k}")), json!({"op": "hold", "n": k})));
        }
        s(|s| s.fault("backlog"));
        let one = |i: u64| match kind {
            "unknown" => frame(&json!({"jsonrpc": "2.0", "id": 100_000 + i, "method": "unknown"})),
            "malformed" => format!("Content-Length: 10\r\n\r\n{{\"a\":{}", 10_000 + i % 10_000).into_bytes(),
            "held_notes" => frame(&json!({"jsonrpc": "2.0", "method": "note", "params": {"n": 100_000 + i}})),
            "fail" => frame(&req(json!(100_000 + i), json!({"op": "fail", "n": 100_000 + i}))),
            _ => frame(&req(json!(100_000 + i), json!({"op": "echo", "n": 100_000 + i, "data": "y"}))),
        };
        let (size, before) = (one(0).len() as u64, s(|s| s.consumed));
        let mut b = Vec::with_capacity(1 << 16);
        for i in 0..TOTAL {
            b.extend(one(i));
            if b.len() > 60_000 || i + 1 == TOTAL {
                m.feed(&b);
                b.clear();
            }
        }
        let read = (s(|s| s.consumed) - before) / size;
        s(|s| s.ev(b'm', read, || format!("{read} of {TOTAL} messages have been read")));
        if !m.stop && read > MANY {
            return m.fail(P, format!("{read} of {TOTAL} messages ({kind}) were read although none could be dealt with"));
        }
    }
    s(|s| {
        s.stalled = false;
        if let Some(k) = s.out_waker.take() {
            k.wake();
        }
    });
    if held {
        for k in 0..m.level as u64 {
            m.open(k);
        }
    }
    m.run();
    let f = m.take();
    let want = match kind {
        "flood" => TOTAL + 1,
        "held" => TOTAL + m.level as u64,
        "held_notes" => m.level as u64,
        _ => TOTAL,
    };
    if !m.stop && f.len() as u64 != want {
        return m.fail(&["C25", "C20"], format!("{} messages instead of {want} arrived after the stall ({kind})", f.len()));
    }
    if kind != "refused" {
        m.alive(P);
    }
    m.end();
}

const STORMS: [(&str, &str); 9] = [
    ("C07", "cancels"),
    ("C15", "strays"),
    ("C22", "duplicates"),
    ("C08", "uninitialized"),
    ("C10", "shut_down"),
    ("C09", "initializes"),
    ("C18", "malformed"),
    ("C04", "unknown"),
    ("C07", "cancelled"),
];

/// Very many messages that are refused or ignored.
fn storm(m: &mut Sim, focus: &str) {
    let mine: Vec<&str> = STORMS.iter().filter(|x| x.0 == focus || x.1 == "cancelled" && focus == "C22").map(|x| x.1).collect();
    let all: Vec<&str> = STORMS.iter().map(|x| x.1).collect();
    let kind = pick(if mine.is_empty() { &all } else { &mine });
    let count = [100u64, 300, 1500, 6000, 70_000][s(|s| s.ch.weighted(&[20, 30, 40, 10, 1]))] + below(9);
    let mut rnd = lcg();
    let cancel = |id: Value| json!({"jsonrpc": "2.0", "method": "$/cancelRequest", "params": {"id": id}});
    match kind {
        "cancels" => {
            m.about = &["C07"];
            m.init();
            m.send(req(json!(7), json!({"op": "hold", "n": 7})));
            let mut b = vec![];
            for i in 0..count {
                let id = match rnd(3) {
                    0 => json!(100 + i),
                    1 => json!("7"),
                    _ => json!(format!("x{i}")),
                };
                b.extend(frame(&cancel(id)));
            }
            m.feed(&b);
            m.expect(&["C07"], &format!("{count} cancellations of unknown ids"), &[]);
            // Ids that have been named before they are used.
            m.alive(&["C07"]);
            m.send(req(json!(101), json!({"op": "echo", "n": 101, "data": 1})));
            m.expect(&["C07"], "a request whose id was cancelled before it was used", &[ok(json!(101), json!({"n": 101, "data": 1}))]);
            m.open(7);
            m.run();
            m.expect(&["C07"], "the request in progress may go on", &[ok(json!(7), json!({"n": 7}))]);
        }
        "strays" => {
            m.about = &["C15"];
            m.init();
            m.send(req(json!(1), json!({"op": "ask", "n": 1})));
            let f = m.take();
            if m.stop || f.len() != 1 {
                return m.fail(&["C14", "C16"], "the request to the client has not arrived".into());
            }
            let mut b = vec![];
            for i in 0..count {
                let id = match rnd(4) {
                    0 => Value::Null,
                    1 => json!(f[0]["id"].to_string()),
                    _ => json!(5000 + i),
                };
                b.extend(frame(&if rnd(2) == 0 { ok(id, json!(i)) } else { json!({"jsonrpc": "2.0", "id": id, "error": {"code": -1, "message": "stray"}}) }));
            }
            s(|s| s.fault("stray_response"));
            m.feed(&b);
            m.expect(&["C15"], &format!("{count} stray responses"), &[]);
            m.send(ok(f[0]["id"].clone(), answer_to(1)));
            m.expect(&["C15"], "the real response", &[ok(json!(1), json!({"n": 1, "got": answer_to(1)}))]);
        }
        "duplicates" => {
            m.about = &["C22", "C03"];
            m.init();
            m.send(req(json!(5), json!({"op": "hold", "n": 5})));
            let b: Vec<u8> = (0..count).flat_map(|i| frame(&req(json!(5), json!({"op": "echo", "n": 1000 + i, "data": 1})))).collect();
            m.feed(&b);
            let f = m.take();
            if !m.stop && (f.len() as u64 != count || !f.iter().all(|v| is_err(v, &json!(5), -32600))) {
                return m.fail(&["C22"], format!("{count} requests with an id in use get {} responses, the first being {:?}", f.len(), f.first().map(brief)));
            }
            m.open(5);
            m.run();
            m.expect(&["C22"], "the original may go on", &[ok(json!(5), json!({"n": 5}))]);
            m.send(req(json!(5), json!({"op": "echo", "n": 6, "data": 1})));
            m.expect(&["C22"], "the id again", &[ok(json!(5), json!({"n": 6, "data": 1}))]);
        }
        "uninitialized" | "shut_down" => {
            let (p, code): (&[&str], i64) = if kind == "shut_down" { (&["C10"], -32600) } else { (&["C08"], -32002) };
            m.about = p;
            if kind == "shut_down" {
                m.init();
                m.send(json!({"jsonrpc": "2.0", "id": "bye", "method": "shutdown"}));
                m.expect(p, "after shutdown", &[ok(json!("bye"), Value::Null)]);
            }
            s(|s| s.starts.clear());
            let b: Vec<u8> = (0..count)
                .flat_map(|i| {
                    frame(&match rnd(4) {
                        0 => json!({"jsonrpc": "2.0", "id": i, "method": "shutdown"}),
                        1 => json!({"jsonrpc": "2.0", "id": i, "method": "textDocument/hover", "params": {"textDocument": {"uri": "file:///a"}, "position": {"line": 0, "character": 0}}}),
                        _ => req(json!(i), json!({"op": "echo", "n": i, "data": i})),
                    })
                })
                .collect();
            m.feed(&b);
            let f = m.take();
            let mut got: Vec<u64> = f.iter().filter(|v| is_err(v, &v["id"], code)).filter_map(|v| v["id"].as_u64()).collect();
            got.sort();
            if !m.stop && (f.len() as u64 != count || got != (0..count).collect::<Vec<_>>() || !s(|s| s.starts.is_empty())) {
                return m.fail(p, format!("{count} requests that are to be refused get {} responses, the first being {:?}", f.len(), f.first().map(brief)));
            }
            if kind == "shut_down" {
                m.end();
                return;
            }
            m.init();
        }
        "initializes" => {
            let p: &[&str] = &["C09"];
            m.about = p;
            let held = m.level > 1 && rnd(2) == 0;
            let one = |id: Value| json!({"jsonrpc": "2.0", "id": id, "method": "initialize", "params": {"capabilities": {}}});
            if held {
                s(|s| s.init_gate = true);
                m.send(one(json!("init")));
                m.expect(p, "while initialize is in progress", &[]);
            } else {
                m.init();
            }
            let b: Vec<u8> = (0..count).flat_map(|i| frame(&one(json!(i)))).collect();
            m.feed(&b);
            let f = m.take();
            let mut got: Vec<u64> = f.iter().filter(|v| is_err(v, &v["id"], -32600)).filter_map(|v| v["id"].as_u64()).collect();
            got.sort();
            if !m.stop && (f.len() as u64 != count || got != (0..count).collect::<Vec<_>>() || s(|s| s.starts.len()) != 1) {
                return m.fail(p, format!("{count} further initialize requests get {} responses, the first being {:?}", f.len(), f.first().map(brief)));
            }
            if held {
                m.open(INIT);
                m.run();
                m.expect(p, "initialize may go on", &[ok(json!("init"), json!({"capabilities": {}}))]);
            }
        }
        "malformed" => {
            m.about = &["C18"];
            m.init();
            let mut b = vec![];
            let (mut parse, mut invalid) = (0u64, 0u64);
            for i in 0..count {
                let t = match rnd(4) {
                    0 => format!("{{\"jsonrpc\":\"2.0\",\"id\":{i}"),
                    1 => "nonsense".into(),
                    2 => format!("[{i}]"),
                    _ => format!("\"{i}\""),
                };
                if t.starts_with('[') || t.starts_with('"') {
                    invalid += 1;
                } else {
                    parse += 1;
                }
                b.extend(format!("Content-Length: {}\r\n\r\n{t}", t.len()).into_bytes());
            }
            s(|s| s.fault("malformed_body"));
            m.feed(&b);
            let f = m.take();
            let n = |c| f.iter().filter(|v| is_err(v, &Value::Null, c)).count() as u64;
            if !m.stop && (f.len() as u64 != count || n(-32700) != parse || n(-32600) != invalid) {
                let t = format!("{parse} bodies that do not parse and {invalid} which are not messages get {} and {} such answers of {}", n(-32700), n(-32600), f.len());
                return m.fail(&["C18"], t);
            }
        }
        "unknown" => {
            m.about = &["C04", "C03"];
            m.init();
            s(|s| s.starts.clear());
            let mut b = vec![];
            let mut want: Vec<(u64, i64)> = vec![];
            for i in 0..count {
                b.extend(frame(&match rnd(5) {
                    0 => json!({"jsonrpc": "2.0", "method": format!("unknown/{i}"), "params": {"i": i}}),
                    1 => json!({"jsonrpc": "2.0", "method": "op", "params": {"op": "echo", "n": i}}),
                    2 => {
                        want.push((i, -32600));
                        json!({"jsonrpc": "2.0", "id": i, "method": "note", "params": {"n": i}})
                    }
                    3 => {
                        want.push((i, -32602));
                        json!({"jsonrpc": "2.0", "id": i, "method": "textDocument/hover", "params": [i]})
                    }
                    _ => {
                        want.push((i, -32601));
                        json!({"jsonrpc": "2.0", "id": i, "method": format!("unknown/{i}")})
                    }
                }));
            }
            m.feed(&b);
            let f = m.take();
            let mut got: Vec<(u64, i64)> = f.iter().filter_map(|v| Some((v["id"].as_u64()?, v["error"]["code"].as_i64()?))).collect();
            got.sort();
            if !m.stop && (f.len() != got.len() || got != want || !s(|s| s.starts.is_empty())) {
                return m.fail(&["C04", "C03"], format!("{} requests which name no handler get {} responses", want.len(), f.len()));
            }
        }
        _ => {
            // The same id, over and over: in progress, cancelled, answered.
            m.about = &["C07", "C22"];
            m.init();
            let count = count.min(6000);
            for i in 0..count {
                if m.stop {
                    return;
                }
                let id = json!(i % 3);
                m.send(req(id.clone(), json!({"op": "hold", "n": i})));
                m.send(cancel(id.clone()));
                let f = m.take();
                if !m.stop && (f.len() != 1 || !is_err(&f[0], &id, -32800)) {
                    return m.fail(&["C07", "C22"], format!("cancelling request number {i} leads to {:?}", f.iter().map(brief).collect::<Vec<_>>()));
                }
            }
            let d = s(|s| s.dropped);
            if !m.stop && d != count {
                return m.fail(&["C07"], format!("{d} of {count} cancelled handlers were dropped"));
            }
        }
    }
    let p = m.about;
    m.alive(p);
    m.end();
}
