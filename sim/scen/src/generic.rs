//! The real `Server` and codec with a service and a loopback that are nobody's but the simulator's:
//! a `tower::Service` that is ready or not, fails or not, and answers with any response at any
//! time, and a loopback whose sink accepts, stalls or fails and whose stream yields, pauses or ends.

use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

use futures::{Sink, Stream};
use serde_json::{json, Value};
use simcore::chooser::{Chooser, Fnv};
use tower::Service;
use tower_lsp::jsonrpc::{Error, Id, Request, Response};
use tower_lsp::{Loopback, Server};

use crate::methods::MethodInfo;
use crate::runner::Outcome;
use crate::session::{guarded, Task};
use crate::world::{Viol, IO_KINDS};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Out {
    Open,
    Stalled,
    Credit(u32),
}

/// What the client has written.
enum Kind {
    /// Goes to the service.
    Req { method: String, id: Option<Id>, params: Option<Value> },
    /// Goes to the sink.
    Resp(Response),
    /// Answered with this code.
    Mal(i64),
    Nothing,
}

struct Msg {
    kind: Kind,
    end_off: u64,
    handled: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Queued,
    Running,
    Done,
    Dropped,
}

struct Call {
    msg: usize,
    st: St,
    gate_open: bool,
    gated: Option<Waker>,
    /// Woken, and not polled since.
    woken: bool,
    answer: Option<Value>,
    written: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Door {
    Open,
    Shut,
    Broken,
}

/// A sink, or the readiness of a service.
struct Gate {
    door: Door,
    waker: Option<Waker>,
    /// The last answer was "ready", and nothing was passed since.
    reserved: bool,
    /// The failure has been reported.
    reported: bool,
}

impl Gate {
    fn new() -> Self {
        Gate { door: Door::Open, waker: None, reserved: false, reported: false }
    }
    fn set(&mut self, d: Door) {
        self.door = d;
        if d != Door::Shut {
            if let Some(k) = self.waker.take() {
                k.wake();
            }
        }
    }
}

struct G {
    ch: Chooser,
    calm: bool,
    seq: u64,
    polls: u64,
    fp: Fnv,
    trace: Option<Vec<String>>,
    faults: BTreeMap<&'static str, u64>,
    probes: BTreeMap<&'static str, u64>,
    viols: Vec<Viol>,
    level: usize,
    chunk: u32,
    short_write: bool,
    flush_buffered: bool,
    spurious: u32,
    p_shut: u32,
    p_gate: u32,
    p_yield: u32,
    p_none: u32,
    p_err: u32,
    big: bool,
    io_kind: io::ErrorKind,

    tok: u64,
    wire: VecDeque<u8>,
    wire_off: u64,
    in_buf: VecDeque<u8>,
    avail_off: u64,
    read_off: u64,
    in_eof: bool,
    in_err: bool,
    in_end_seen: bool,
    in_waker: Option<Waker>,
    msgs: Vec<Msg>,

    out: Out,
    out_blocked: bool,
    out_waker: Option<Waker>,
    out_pend: Vec<u8>,
    out_vis: Vec<u8>,
    /// 1 write error, 2 zero write, 3 flush error.
    out_fault: u32,
    out_failed: bool,
    out_broken: bool,

    svc: Gate,
    calls: Vec<Call>,
    active: usize,
    max_active: usize,
    started: usize,

    lb: VecDeque<(Request, Value)>,
    lb_waker: Option<Waker>,
    lb_end: bool,
    lb_done: bool,
    lb_expect: VecDeque<Value>,
    lb_total: usize,
    sink: Gate,
    sink_close: Door,
    sink_closed: bool,
    flush_owed: bool,

    mal_expect: VecDeque<i64>,
    frames: u64,
    done: bool,
}

thread_local! {
    static G: RefCell<Option<G>> = const { RefCell::new(None) };
}

fn g<R>(f: impl FnOnce(&mut G) -> R) -> R {
    G.with(|c| f(c.borrow_mut().as_mut().expect("harness: no generic session")))
}

const TEXT: [&str; 6] = ["x", "héllo", "日本語", "😀\u{10ffff}", "q\"\\\n\u{1}\r\n\r\n", "Content-Length: 3\r\n\r\n"];

impl G {
    fn ev(&mut self, kind: u8, val: u64, text: impl FnOnce() -> String) {
        self.seq += 1;
        self.fp.add(&[kind]);
        self.fp.add_u64(val);
        if let Some(t) = &mut self.trace {
            let n = self.seq;
            t.push(format!("{n:>5} {}", text()));
        }
    }
    fn viol(&mut self, props: &[&'static str], what: String) {
        if let Some(t) = &mut self.trace {
            t.push(format!("      !! {props:?} {what}"));
        }
        if self.viols.len() < 20 {
            let mut props = props.to_vec();
            props.push("C24");
            self.viols.push(Viol { props, what });
        }
    }
    fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_insert(0) += 1;
    }
    fn probe(&mut self, k: &'static str) {
        *self.probes.entry(k).or_insert(0) += 1;
    }

    /// A JSON value; objects at the outermost level bear the token.
    fn value(&mut self, depth: u32) -> Value {
        match self.ch.weighted(&[20, 12, 8, 8, 8, 6, 10, 10]) {
            0 => json!(self.ch.below(100)),
            1 => {
                let i = self.ch.below(TEXT.len() as u32) as usize;
                let n = if self.big && self.ch.chance(15, 100) { 1 + self.ch.below(4000) as usize } else { 1 };
                json!(TEXT[i].repeat(n))
            }
            2 => json!(self.ch.below(2) == 1),
            3 => Value::Null,
            4 => json!([i64::MIN, i64::MAX, -1, 1 << 53][self.ch.below(4) as usize]),
            5 => match self.ch.below(3) {
                0 => json!(u64::MAX),
                1 => json!(0.25),
                _ => json!(-3.5e10),
            },
            6 if depth > 0 => {
                let n = self.ch.below(4);
                Value::Array((0..n).map(|_| self.value(depth - 1)).collect())
            }
            7 if depth > 0 => {
                let n = self.ch.below(4);
                let mut m = serde_json::Map::new();
                for i in 0..n {
                    let k = match self.ch.below(5) {
                        0 => "method".to_string(),
                        1 => "id".to_string(),
                        2 => TEXT[self.ch.below(TEXT.len() as u32) as usize].to_string(),
                        _ => format!("k{i}"),
                    };
                    let v = self.value(depth - 1);
                    m.insert(k, v);
                }
                Value::Object(m)
            }
            _ => json!({}),
        }
    }
    fn tokened(&mut self) -> Value {
        self.tok += 1;
        let t = self.tok;
        match self.ch.below(4) {
            0 => json!({ "t": t }),
            1 => {
                let v = self.value(2);
                json!([v, { "t": t }])
            }
            _ => {
                let v = self.value(2);
                json!({ "t": t, "v": v })
            }
        }
    }
    fn id(&mut self) -> (Id, Value) {
        match self.ch.weighted(&[40, 20, 10, 5]) {
            0 => {
                let n = self.ch.below(6) as i64;
                (Id::Number(n), json!(n))
            }
            1 => {
                let s = ["a", "1", "", "日本"][self.ch.below(4) as usize];
                (Id::String(s.to_string()), json!(s))
            }
            2 => {
                let n = [-1, i64::MAX, i64::MIN, 1 << 40][self.ch.below(4) as usize];
                (Id::Number(n), json!(n))
            }
            _ => (Id::Null, Value::Null),
        }
    }
    fn method(&mut self) -> String {
        ["initialize", "exit", "shutdown", "$/cancelRequest", "textDocument/hover", "a", "日本/語", "x y\n\"z\"", "rpc.discover", "initialized"]
            [self.ch.below(10) as usize]
            .to_string()
    }
    /// A response and what it looks like on the wire.
    fn response(&mut self, id: Option<(Id, Value)>) -> (Response, Value) {
        let (id, jid) = match id {
            Some(x) => x,
            None => self.id(),
        };
        if self.ch.chance(35, 100) {
            let code = match self.ch.below(4) {
                0 => -32603,
                1 => -32800,
                2 => self.ch.below(1000) as i64 - 500,
                _ => [-32700, -32600, -32601, -32602, -32801, -32000, i64::MAX, 0][self.ch.below(8) as usize],
            };
            let text = TEXT[self.ch.below(TEXT.len() as u32) as usize];
            if self.ch.chance(50, 100) {
                let d = self.tokened();
                let e = Error { code: crate::handlers::named(code), message: text.into(), data: Some(d.clone()) };
                return (Response::from_error(id, e), json!({"jsonrpc": "2.0", "error": {"code": code, "message": text, "data": d}, "id": jid}));
            }
            self.tok += 1;
            let text = format!("{text} {}", self.tok);
            let e = Error { code: crate::handlers::named(code), message: text.clone().into(), data: None };
            return (Response::from_error(id, e), json!({"jsonrpc": "2.0", "error": {"code": code, "message": text}, "id": jid}));
        }
        let v = self.tokened();
        (Response::from_ok(id, v.clone()), json!({"jsonrpc": "2.0", "result": v, "id": jid}))
    }
    fn request(&mut self) -> (Request, Value) {
        let method = self.method();
        let id = if self.ch.chance(60, 100) { Some(self.id()) } else { None };
        let params = self.tokened();
        let mut b = Request::build(method.clone()).params(params.clone());
        let mut v = json!({"jsonrpc": "2.0", "method": method, "params": params});
        if let Some((i, j)) = id {
            b = b.id(i);
            v["id"] = j;
        }
        (b.finish(), v)
    }

    /// The object with its members in a drawn order, and drawn white space.
    fn text_of(&mut self, v: &Value) -> Vec<u8> {
        let mut parts: Vec<String> = v.as_object().unwrap().iter().map(|(k, v)| format!("{}:{}", json!(k), v)).collect();
        for i in (1..parts.len()).rev() {
            let j = self.ch.below(i as u32 + 1) as usize;
            parts.swap(i, i - j);
        }
        let sp = ["", " ", "\n\t"][self.ch.below(3) as usize];
        format!("{{{sp}{}{sp}}}{sp}", parts.join(&format!("{sp},{sp}"))).into_bytes()
    }

    fn peer_send(&mut self) {
        let (kind, body) = match self.ch.weighted(&[60, 25, 8, 3]) {
            0 => {
                let method = self.method();
                let id = if self.ch.chance(65, 100) { Some(self.id()) } else { None };
                let params = if self.ch.chance(80, 100) { Some(self.tokened()) } else { None };
                let mut v = json!({"jsonrpc": "2.0", "method": method});
                if let Some((_, j)) = &id {
                    v["id"] = j.clone();
                }
                if let Some(p) = &params {
                    v["params"] = p.clone();
                }
                let b = self.text_of(&v);
                (Kind::Req { method, id: id.map(|x| x.0), params }, b)
            }
            1 => {
                let (r, v) = self.response(None);
                let b = self.text_of(&v);
                (Kind::Resp(r), b)
            }
            2 => {
                self.fault("malformed_body");
                let (code, b): (i64, &[u8]) = match self.ch.below(6) {
                    0 => (-32700, b"not json"),
                    1 => (-32700, b"{\"jsonrpc\":\"2.0\","),
                    2 => (-32700, b"\xff\xfe"),
                    3 => (-32600, b"[]"),
                    4 => (-32600, b"{}"),
                    _ => (-32600, b"{\"jsonrpc\":\"1.0\",\"method\":\"a\"}"),
                };
                (Kind::Mal(code), b.to_vec())
            }
            _ => {
                self.fault("empty_frame");
                (Kind::Nothing, vec![])
            }
        };
        let n = body.len();
        let head = match self.ch.weighted(&[70, 10, 10]) {
            0 => format!("Content-Length: {n}\r\n\r\n"),
            1 => format!("Content-Length: {n}\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n"),
            _ => format!("Content-Type: application/vscode-jsonrpc; charset=utf8\r\nContent-Length: {n}\r\n\r\n"),
        };
        self.wire.extend(head.as_bytes());
        self.wire.extend(&body);
        self.wire_off += (head.len() + n) as u64;
        let i = self.msgs.len();
        let what = if self.trace.is_some() {
            let mut s = String::from_utf8_lossy(&body).into_owned();
            if s.len() > 200 {
                let cut = (0..=200).rev().find(|&i| s.is_char_boundary(i)).unwrap();
                s.truncate(cut);
            }
            s
        } else {
            String::new()
        };
        self.ev(b's', n as u64, || format!("client writes #{i} {what}"));
        let end_off = self.wire_off;
        self.msgs.push(Msg { kind, end_off, handled: false });
    }

    fn deliver(&mut self, n: usize) {
        let d: Vec<u8> = self.wire.drain(..n).collect();
        self.in_buf.extend(d);
        self.avail_off += n as u64;
        self.ev(b'd', n as u64, || format!("{n} bytes arrive"));
        if let Some(k) = self.in_waker.take() {
            k.wake();
        }
    }

    /// The next message to be handled, past those nobody hears of.
    fn next_msg(&mut self) -> Option<usize> {
        for i in 0..self.msgs.len() {
            if self.msgs[i].handled {
                continue;
            }
            match self.msgs[i].kind {
                Kind::Nothing => self.msgs[i].handled = true,
                _ => return (self.msgs[i].end_off <= self.read_off).then_some(i),
            }
        }
        None
    }

    fn mal_before(&mut self) {
        while let Some(i) = self.next_msg() {
            let Kind::Mal(code) = self.msgs[i].kind else { return };
            self.msgs[i].handled = true;
            self.mal_expect.push_back(code);
        }
    }

    fn parse_output(&mut self) {
        while !self.out_broken {
            let Some(h) = self.out_vis.windows(4).take(300).position(|x| x == b"\r\n\r\n") else {
                if self.out_vis.len() > 300 {
                    self.out_broken = true;
                    self.viol(&["C02"], "output is not a frame header".into());
                }
                return;
            };
            let head = String::from_utf8_lossy(&self.out_vis[..h]).into_owned();
            let Some(n) = head.strip_prefix("Content-Length: ").and_then(|v| v.parse::<usize>().ok()) else {
                self.out_broken = true;
                return self.viol(&["C02"], format!("bad frame header in output: {head:?}"));
            };
            if self.out_vis.len() < h + 4 + n {
                return;
            }
            let f: Vec<u8> = self.out_vis.drain(..h + 4 + n).collect();
            match std::str::from_utf8(&f[h + 4..]).ok().and_then(|s| serde_json::from_str::<Value>(s).ok()) {
                Some(v) => self.on_frame(v),
                None => {
                    self.out_broken = true;
                    self.viol(&["C02"], "output frame body is not JSON".into());
                }
            }
        }
    }

    fn on_frame(&mut self, v: Value) {
        self.frames += 1;
        let mut s = v.to_string();
        let mut f = Fnv::default();
        f.add(s.as_bytes());
        if s.len() > 300 {
            let cut = (0..=300).rev().find(|&i| s.is_char_boundary(i)).unwrap();
            s.truncate(cut);
        }
        self.ev(b'F', f.0, || format!("client receives {s}"));
        if v.get("method").is_some() {
            match self.lb_expect.iter().position(|x| *x == v) {
                Some(0) => {
                    self.lb_expect.pop_front();
                }
                Some(_) => self.viol(&["C17"], format!("loopback request written out of order: {s}")),
                None => self.viol(&["C17", "C02"], format!("request written that the loopback did not yield, or not again: {s}")),
            }
            return;
        }
        if let Some(i) = (0..self.calls.len()).find(|&i| self.calls[i].st == St::Done && !self.calls[i].written && self.calls[i].answer.as_ref() == Some(&v)) {
            self.calls[i].written = true;
            return;
        }
        self.mal_before();
        if v["id"].is_null() && v["error"]["data"].is_null() {
            if let Some(&code) = self.mal_expect.front() {
                if v["error"]["code"] == json!(code) {
                    self.mal_expect.pop_front();
                    return;
                }
            }
        }
        self.viol(&["C03", "C18", "C02"], format!("response written that the service did not give, or not again: {s}"));
    }

    /// Nothing is runnable: everything that is possible must have happened.
    fn on_idle(&mut self) {
        if self.done {
            return;
        }
        self.mal_before();
        let dead = self.out_failed || self.out_fault != 0;
        if dead {
            return;
        }
        let reading = !self.svc.reported && !self.sink.reported;
        let unfinished = self.calls.iter().filter(|c| matches!(c.st, St::Queued | St::Running)).count();
        if !self.out_blocked {
            if self.out_pend.len() + self.out_vis.len() > 0 {
                self.viol(&["C02"], "written bytes are not flushed, or a frame is incomplete".into());
            }
            if let Some(c) = self.calls.iter().find(|c| c.st == St::Running && c.woken) {
                let m = c.msg;
                self.viol(&["C20"], format!("the future of message #{m} was woken but is not polled"));
            }
            if self.active < self.level && self.calls.iter().any(|c| c.st == St::Queued) {
                let (a, l) = (self.active, self.level);
                self.viol(&["C05", "C20"], format!("a call waits although {a} of {l} slots are in use"));
            }
            if let Some(c) = self.calls.iter().find(|c| c.st == St::Done && c.answer.is_some() && !c.written) {
                let m = c.msg;
                self.viol(&["C03", "C02", "C20"], format!("the response to message #{m} is not written"));
            }
            if !self.lb.is_empty() && !self.lb_done || !self.lb_expect.is_empty() {
                self.viol(&["C17", "C20"], "requests of the loopback are not written".into());
            }
            let shut = self.svc.door != Door::Open || self.sink.door != Door::Open || self.flush_owed;
            if self.flush_owed && !self.sink.reported && self.sink.door == Door::Open {
                self.viol(&["C14", "C20"], "the sink was given a response but is not flushed".into());
            }
            if reading && !shut && unfinished < 95 {
                if !self.mal_expect.is_empty() {
                    self.viol(&["C18", "C20"], "a malformed message is not answered".into());
                }
                if !self.in_buf.is_empty() {
                    let n = self.in_buf.len();
                    self.viol(&["C01", "C20"], format!("{n} bytes that have arrived are not read"));
                }
                if let Some(i) = self.next_msg() {
                    self.viol(&["C01", "C20"], format!("message #{i} was read but is not acted on"));
                }
            }
        }
    }

    fn at_return(&mut self) {
        self.done = true;
        self.ev(b'D', 0, || "serve() returns".into());
        let ended = self.in_end_seen || self.svc.reported || self.sink.reported || self.out_failed;
        if !ended {
            self.viol(&["C12"], "serve() returned although neither the input has ended nor anything has failed".into());
        }
        if self.out_failed {
            return;
        }
        if let Some(c) = self.calls.iter().find(|c| c.st != St::Done) {
            let (m, s) = (c.msg, c.st);
            self.viol(&["C12", "C03"], format!("serve() returned although the call for message #{m} is {s:?}"));
        }
        if let Some(c) = self.calls.iter().find(|c| c.st == St::Done && c.answer.is_some() && !c.written) {
            let m = c.msg;
            self.viol(&["C12", "C03"], format!("serve() returned without having written the response to message #{m}"));
        }
        self.mal_before();
        let reading = !self.svc.reported && !self.sink.reported;
        if reading {
            if let Some(i) = self.next_msg() {
                self.viol(&["C12", "C01"], format!("serve() returned without having acted on message #{i}"));
            }
            if !self.mal_expect.is_empty() {
                self.viol(&["C12", "C18"], "serve() returned without having answered a malformed message".into());
            }
        }
        if !self.lb_expect.is_empty() || (!self.lb.is_empty() && !self.lb_done) {
            self.viol(&["C12", "C17"], "serve() returned without having written the requests of the loopback".into());
        }
        if !self.sink_closed && !self.sink.reported {
            self.viol(&["C12"], "serve() returned without having closed the loopback's sink".into());
        }
        if self.out_pend.len() + self.out_vis.len() > 0 {
            self.viol(&["C12", "C02"], "serve() returned with output that is not flushed or not complete".into());
        }
    }

    fn poll_in(&mut self, cx: &mut Context<'_>, max: usize) -> Poll<io::Result<Vec<u8>>> {
        if !self.calm && self.spurious > 0 && self.ch.chance(self.spurious, 100) {
            self.fault("input_spurious_pending");
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if self.in_buf.is_empty() {
            if self.in_eof || self.in_err {
                if !self.in_end_seen {
                    self.in_end_seen = true;
                    self.ev(b'e', 0, || "server reads the end of the input".into());
                }
                return Poll::Ready(if self.in_err { Err(io::Error::new(self.io_kind, "sim read error")) } else { Ok(vec![]) });
            }
            self.in_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut n = self.in_buf.len().min(max);
        if !self.calm && n > 1 && self.chunk > 0 && self.ch.chance(20, 100) {
            n = 1 + self.ch.below(n as u32 - 1) as usize;
            self.fault("input_short_read");
        }
        let d: Vec<u8> = self.in_buf.drain(..n).collect();
        self.read_off += n as u64;
        self.ev(b'r', n as u64, || format!("server reads {n} bytes"));
        Poll::Ready(Ok(d))
    }

    fn fail_out(&mut self, k: &'static str) -> io::Error {
        self.fault(k);
        if !self.out_failed {
            self.out_failed = true;
            self.ev(b'X', 0, || k.into());
        }
        io::Error::new(self.io_kind, "sim write error")
    }

    fn poll_out(&mut self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        match self.out_fault {
            1 => return Poll::Ready(Err(self.fail_out("output_write_error"))),
            2 => {
                self.fail_out("output_zero_write");
                return Poll::Ready(Ok(0));
            }
            _ => {}
        }
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if !self.calm && self.spurious > 0 && self.ch.chance(self.spurious, 100) {
            self.fault("output_spurious_pending");
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let mut n = buf.len();
        match self.out {
            Out::Open => {}
            Out::Stalled | Out::Credit(0) => {
                self.out_waker = Some(cx.waker().clone());
                self.out_blocked = true;
                return Poll::Pending;
            }
            Out::Credit(c) => n = n.min(c as usize),
        }
        if !self.calm && self.short_write && n > 1 && self.ch.chance(50, 100) {
            n = 1 + self.ch.below(n as u32 - 1) as usize;
        }
        if n < buf.len() {
            self.fault("output_short_write");
        }
        if let Out::Credit(c) = &mut self.out {
            *c -= n as u32;
        }
        self.out_blocked = false;
        self.ev(b'w', n as u64, || format!("server writes {n} bytes"));
        if self.flush_buffered {
            self.out_pend.extend_from_slice(&buf[..n]);
        } else {
            self.out_vis.extend_from_slice(&buf[..n]);
            self.parse_output();
        }
        Poll::Ready(Ok(n))
    }

    fn poll_flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if matches!(self.out_fault, 1 | 3) {
            return Poll::Ready(Err(self.fail_out("output_flush_error")));
        }
        if !self.out_pend.is_empty() {
            if self.out == Out::Stalled {
                self.out_waker = Some(cx.waker().clone());
                self.out_blocked = true;
                return Poll::Pending;
            }
            let p = std::mem::take(&mut self.out_pend);
            self.ev(b'f', p.len() as u64, || "server flushes".into());
            self.out_vis.extend_from_slice(&p);
            self.parse_output();
        }
        self.out_blocked = false;
        Poll::Ready(Ok(()))
    }

    /// Nothing is left to be processed: what the loopback has from now on may not be written.
    fn processed(&self) -> bool {
        (self.in_end_seen || self.svc.reported || self.sink.reported)
            && (self.sink_closed || self.sink.reported)
            && self.calls.iter().all(|c| c.st == St::Done)
    }

    fn draw_door(&mut self) -> Door {
        if !self.calm && self.p_shut > 0 && self.ch.chance(self.p_shut, 100) {
            Door::Shut
        } else {
            Door::Open
        }
    }
}

struct GIn;
struct GOut;

#[cfg(feature = "tokio-rt")]
mod imp {
    use super::*;
    use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

    impl AsyncRead for GIn {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            g(|w| w.poll_in(cx, buf.remaining())).map(|r| r.map(|d| buf.put_slice(&d)))
        }
    }
    impl AsyncWrite for GOut {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            g(|w| w.poll_out(cx, buf))
        }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            g(|w| w.poll_flush(cx))
        }
        fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            g(|w| w.poll_flush(cx))
        }
    }
}

#[cfg(feature = "agnostic-rt")]
mod imp {
    use super::*;
    use futures::io::{AsyncRead, AsyncWrite};

    impl AsyncRead for GIn {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
            g(|w| w.poll_in(cx, buf.len())).map(|r| {
                r.map(|d| {
                    buf[..d.len()].copy_from_slice(&d);
                    d.len()
                })
            })
        }
    }
    impl AsyncWrite for GOut {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            g(|w| w.poll_out(cx, buf))
        }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            g(|w| w.poll_flush(cx))
        }
        fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            g(|w| w.poll_flush(cx))
        }
    }
}

struct Svc;

/// One call of the service.
struct CallFut {
    i: usize,
    steps: VecDeque<u8>,
    out: Option<Result<Option<Response>, io::Error>>,
}

impl Service<Request> for Svc {
    type Response = Option<Response>;
    type Error = io::Error;
    type Future = CallFut;

    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), io::Error>> {
        g(|w| {
            if w.svc.reported {
                w.viol(&[], "poll_ready() after it has failed".into());
            }
            match w.svc.door {
                Door::Open => {
                    if !w.svc.reserved && !w.calm && w.spurious > 0 && w.ch.chance(w.spurious, 100) {
                        w.fault("service_spurious_pending");
                        cx.waker().wake_by_ref();
                        return Poll::Pending;
                    }
                    w.svc.reserved = true;
                    w.ev(b'y', 0, || "service is ready".into());
                    Poll::Ready(Ok(()))
                }
                Door::Shut => {
                    w.svc.reserved = false;
                    w.svc.waker = Some(cx.waker().clone());
                    w.ev(b'y', 1, || "service is not ready".into());
                    w.fault("service_not_ready");
                    Poll::Pending
                }
                Door::Broken => {
                    w.svc.reserved = false;
                    w.svc.reported = true;
                    w.ev(b'y', 2, || "service has failed".into());
                    w.fault("service_failed");
                    Poll::Ready(Err(io::Error::new(io::ErrorKind::Other, "sim service failure")))
                }
            }
        })
    }

    fn call(&mut self, req: Request) -> CallFut {
        g(|w| {
            w.mal_before();
            let next = w.next_msg();
            let i = w.calls.len();
            w.ev(b'c', i as u64, || format!("call {i} for {:?}", next));
            if w.svc.reported || !w.svc.reserved {
                w.viol(&[], "call() without poll_ready() having been ready".into());
            }
            w.svc.reserved = false;
            let m = match next {
                Some(m) => m,
                None => {
                    w.viol(&["C01", "C03"], format!("call() with a message that was not received: {req}"));
                    0
                }
            };
            if let Some(m) = next {
                let why = match &w.msgs[m].kind {
                    Kind::Req { method, id, params } => {
                        (req.method() != method || req.id() != id.as_ref() || req.params() != params.as_ref()).then_some("differs from what was received")
                    }
                    _ => Some("comes before one that was received earlier"),
                };
                if let Some(why) = why {
                    w.viol(&["C04", "C06", "C01"], format!("message #{m}: call() with {req}, which {why}"));
                }
                w.msgs[m].handled = true;
            }
            let mut steps = VecDeque::new();
            for _ in 0..w.ch.below(4) {
                if w.ch.chance(w.p_yield, 100) {
                    steps.push_back(0);
                }
                if w.ch.chance(w.p_gate, 100) {
                    steps.push_back(1);
                }
            }
            let mut answer = None;
            let out = if w.ch.chance(w.p_err, 100) {
                w.fault("service_call_error");
                Err(io::Error::new(io::ErrorKind::Other, "sim call failure"))
            } else if w.ch.chance(w.p_none, 100) {
                Ok(None)
            } else {
                let id = req.id().map(|i| (i.clone(), serde_json::to_value(i).unwrap()));
                let (r, v) = w.response(id);
                answer = Some(v);
                Ok(Some(r))
            };
            w.calls.push(Call { msg: m, st: St::Queued, gate_open: false, gated: None, woken: false, answer, written: false });
            let d = w.draw_door();
            if w.svc.door == Door::Open {
                w.svc.door = d;
            }
            CallFut { i, steps, out: Some(out) }
        })
    }
}

impl Future for CallFut {
    type Output = Result<Option<Response>, io::Error>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let i = self.i;
        g(|w| {
            if w.calls[i].st == St::Queued {
                w.calls[i].st = St::Running;
                w.active += 1;
                w.max_active = w.max_active.max(w.active);
                w.ev(b'S', i as u64, || format!("call {i} starts"));
                if w.active > w.level {
                    let (a, l) = (w.active, w.level);
                    w.viol(&["C05"], format!("{a} calls in progress, the limit is {l}"));
                }
                if i != w.started {
                    let k = w.started;
                    w.viol(&["C06"], format!("call {i} starts before call {k}"));
                }
                w.started = w.started.max(i + 1);
            } else if w.calls[i].st == St::Done {
                w.viol(&["C20"], format!("call {i} is polled after it has finished"));
            }
            w.calls[i].woken = false;
        });
        while let Some(&s) = self.steps.front() {
            match s {
                0 => {
                    self.steps.pop_front();
                    cx.waker().wake_by_ref();
                    g(|w| {
                        w.calls[i].woken = true;
                        w.ev(b'Y', i as u64, || format!("call {i} yields"));
                    });
                    return Poll::Pending;
                }
                _ => {
                    let open = g(|w| {
                        let c = &mut w.calls[i];
                        if c.gate_open {
                            c.gate_open = false;
                            c.gated = None;
                            true
                        } else {
                            c.gated = Some(cx.waker().clone());
                            false
                        }
                    });
                    if !open {
                        return Poll::Pending;
                    }
                    self.steps.pop_front();
                }
            }
        }
        g(|w| {
            w.calls[i].st = St::Done;
            w.active -= 1;
            w.ev(b'T', i as u64, || format!("call {i} finishes"));
        });
        Poll::Ready(self.out.take().unwrap_or_else(|| Ok(None)))
    }
}

impl Drop for CallFut {
    fn drop(&mut self) {
        let i = self.i;
        G.with(|c| {
            let Ok(mut c) = c.try_borrow_mut() else { return };
            let Some(w) = c.as_mut() else { return };
            if w.calls[i].st != St::Done {
                if w.calls[i].st == St::Running {
                    w.active -= 1;
                }
                w.calls[i].st = St::Dropped;
                w.ev(b'R', i as u64, || format!("call {i} is dropped"));
                if !w.out_failed && w.out_fault == 0 {
                    w.viol(&["C03", "C12"], format!("call {i} is dropped before it has finished"));
                }
            }
        });
    }
}

struct Lb;
struct LbStream;
struct LbSink;

impl Loopback for Lb {
    type RequestStream = LbStream;
    type ResponseSink = LbSink;
    fn split(self) -> (LbStream, LbSink) {
        (LbStream, LbSink)
    }
}

impl Stream for LbStream {
    type Item = Request;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Request>> {
        g(|w| {
            if w.lb_done {
                w.viol(&[], "the loopback's stream is polled after its end".into());
                return Poll::Ready(None);
            }
            if let Some((r, v)) = w.lb.pop_front() {
                w.ev(b'l', 0, || "server takes a request of the loopback".into());
                w.lb_expect.push_back(v);
                return Poll::Ready(Some(r));
            }
            if w.lb_end {
                w.lb_done = true;
                w.ev(b'l', 1, || "server sees the end of the loopback's stream".into());
                return Poll::Ready(None);
            }
            w.lb_waker = Some(cx.waker().clone());
            Poll::Pending
        })
    }
}

impl LbSink {
    fn gate(cx: &mut Context<'_>, what: &'static str, reserve: bool) -> Poll<Result<(), io::Error>> {
        g(|w| match w.sink.door {
            Door::Open => {
                if reserve {
                    w.sink.reserved = true;
                }
                Poll::Ready(Ok(()))
            }
            Door::Shut => {
                w.fault("sink_not_ready");
                w.sink.waker = Some(cx.waker().clone());
                w.ev(b'k', 0, || format!("sink is not ready to {what}"));
                Poll::Pending
            }
            Door::Broken => {
                w.fault("sink_failed");
                w.sink.reported = true;
                w.ev(b'k', 1, || format!("sink fails to {what}"));
                Poll::Ready(Err(io::Error::new(io::ErrorKind::Other, "sim sink failure")))
            }
        })
    }
}

impl Sink<Response> for LbSink {
    type Error = io::Error;
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), io::Error>> {
        LbSink::gate(cx, "accept", true)
    }
    fn start_send(self: Pin<&mut Self>, r: Response) -> Result<(), io::Error> {
        g(|w| {
            w.mal_before();
            if !w.sink.reserved || w.sink_closed {
                w.viol(&["C14"], "start_send() without poll_ready() having been ready".into());
            }
            w.sink.reserved = false;
            let next = w.next_msg();
            w.ev(b'K', 0, || format!("sink receives the response of message {next:?}"));
            match next {
                Some(m) => {
                    match &w.msgs[m].kind {
                        Kind::Resp(x) if *x == r => {}
                        Kind::Resp(x) => {
                            let t = format!("message #{m}: sink receives {r:?}, received was {x:?}");
                            w.viol(&["C14", "C01"], t);
                        }
                        _ => w.viol(&["C14", "C01", "C06"], format!("sink receives {r:?} before message #{m} is acted on")),
                    }
                    w.msgs[m].handled = true;
                }
                None => w.viol(&["C14", "C01"], format!("sink receives a response that was not received: {r:?}")),
            }
            w.flush_owed = true;
            let d = w.draw_door();
            if w.sink.door == Door::Open {
                w.sink.door = d;
            }
        });
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), io::Error>> {
        let r = LbSink::gate(cx, "flush", false);
        if let Poll::Ready(Ok(())) = r {
            g(|w| w.flush_owed = false);
        }
        r
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), io::Error>> {
        let first = g(|w| {
            let d = w.sink_close;
            w.sink_close = Door::Open;
            d == Door::Shut && !w.calm
        });
        if first {
            g(|w| w.fault("sink_close_pending"));
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let r = LbSink::gate(cx, "close", false);
        if let Poll::Ready(Ok(())) = r {
            g(|w| {
                w.flush_owed = false;
                w.sink_closed = true;
                w.ev(b'k', 3, || "sink is closed".into());
            });
        }
        r
    }
}

struct Ex {
    task: Task,
    stop: bool,
    harness: Option<String>,
    dead: u32,
}

impl Ex {
    fn poll(&mut self) {
        let Some(fut) = self.task.fut.as_mut() else { return };
        self.task.flag.woken.store(false, std::sync::atomic::Ordering::Relaxed);
        let before = g(|w| {
            w.polls += 1;
            w.fp.add(b"P");
            if let Some(t) = &mut w.trace {
                t.push("      -- poll server".into());
            }
            w.seq
        });
        let mut cx = Context::from_waker(&self.task.waker);
        match guarded(|| fut.as_mut().poll(&mut cx)) {
            Ok(Poll::Pending) => {}
            Ok(Poll::Ready(())) => {
                g(|w| w.at_return());
                let t = self.task.fut.take();
                if let Err(p) = guarded(|| drop(t)) {
                    self.panicked(p);
                }
            }
            Err(p) => self.panicked(p),
        }
        if g(|w| w.seq) == before {
            self.dead += 1;
            if self.dead > 3000 {
                self.stop = true;
                g(|w| w.viol(&["C20", "C12", "C13"], "the server spins: thousands of polls without any progress".into()));
            }
        } else {
            self.dead = 0;
        }
    }
    fn panicked(&mut self, p: String) {
        self.stop = true;
        if p.contains("harness:") {
            self.harness = Some(p);
        } else {
            g(|w| w.viol(&["C01", "C02", "C03", "C04", "C05", "C06", "C12", "C13", "C17", "C18", "C20"], format!("panic: {p}")));
        }
    }
    fn run_idle(&mut self) {
        let mut n = 0;
        while !self.stop && self.task.runnable() {
            self.poll();
            n += 1;
            if n > 20_000 {
                self.stop = true;
                g(|w| w.viol(&["C20", "C12"], "the server does not become idle".into()));
            }
        }
    }
}

fn open_call(i: usize) {
    let k = g(|w| {
        w.calls[i].gate_open = true;
        w.calls[i].woken = true;
        w.ev(b'g', i as u64, || format!("call {i} may go on"));
        w.calls[i].gated.take()
    });
    if let Some(k) = k {
        k.wake();
    }
}

fn closed_calls() -> Vec<usize> {
    g(|w| (0..w.calls.len()).filter(|&i| w.calls[i].st == St::Running && w.calls[i].gated.is_some() && !w.calls[i].gate_open).collect())
}

pub fn run(focus: &'static str, mut ch: Chooser, trace: bool, _: &'static [MethodInfo]) -> Outcome {
    let level = match ch.weighted(&[30, 20, 20, 15, 10, 3]) {
        0 => None,
        1 => Some(1usize),
        2 => Some(2),
        3 => Some(3),
        4 => Some(8),
        _ => Some([40usize, 100, 1000][ch.below(3) as usize]),
    };
    let on = |ch: &mut Chooser, p: u32, v: u32| if ch.chance(p, 100) { v } else { 0 };
    let many = ch.chance(1, 30);
    let max_msgs = if many { 120 + ch.below(150) } else { 3 + ch.small(0, 40) };
    let w_fail = on(&mut ch, 12, 2);
    let w_sfail = on(&mut ch, 8, 2);
    let w_ofault = if focus == "C13" { on(&mut ch, 60, 2) } else { on(&mut ch, 6, 1) };
    let w_end = on(&mut ch, 25, 2);
    let w_lbend = on(&mut ch, 12, 2);
    let w_out = on(&mut ch, if focus == "C02" { 60 } else { 35 }, 12);
    let w_lb = on(&mut ch, 70, 15);
    let piled = ch.chance(25, 100);
    let st = G {
        calm: false,
        seq: 0,
        polls: 0,
        fp: Fnv::default(),
        trace: trace.then(Vec::new),
        faults: BTreeMap::new(),
        probes: BTreeMap::new(),
        viols: vec![],
        level: level.unwrap_or(4),
        chunk: if ch.chance(60, 100) { [3, 20, 200][ch.below(3) as usize] } else { 0 },
        short_write: ch.chance(40, 100),
        flush_buffered: ch.chance(50, 100),
        spurious: on(&mut ch, 25, 12),
        p_shut: [0, 0, 15, 50][ch.below(4) as usize],
        p_gate: if many { 60 } else { [0, 30, 60][ch.below(3) as usize] },
        p_yield: [0, 20, 50][ch.below(3) as usize],
        p_none: [10, 40][ch.below(2) as usize],
        p_err: on(&mut ch, 50, 15),
        big: ch.chance(10, 100),
        io_kind: IO_KINDS[ch.below(8) as usize],
        ch,
        tok: 0,
        wire: VecDeque::new(),
        wire_off: 0,
        in_buf: VecDeque::new(),
        avail_off: 0,
        read_off: 0,
        in_eof: false,
        in_err: false,
        in_end_seen: false,
        in_waker: None,
        msgs: vec![],
        out: Out::Open,
        out_blocked: false,
        out_waker: None,
        out_pend: vec![],
        out_vis: vec![],
        out_fault: 0,
        out_failed: false,
        out_broken: false,
        svc: Gate::new(),
        calls: vec![],
        active: 0,
        max_active: 0,
        started: 0,
        lb: VecDeque::new(),
        lb_waker: None,
        lb_end: false,
        lb_done: false,
        lb_expect: VecDeque::new(),
        lb_total: 0,
        sink: Gate::new(),
        sink_close: Door::Open,
        sink_closed: false,
        flush_owed: false,
        mal_expect: VecDeque::new(),
        frames: 0,
        done: false,
    };
    G.with(|c| *c.borrow_mut() = Some(st));
    g(|w| w.sink_close = w.draw_door());
    let built = guarded(|| {
        let mut s = Server::new(GIn, GOut, Lb);
        if let Some(n) = level {
            s = s.concurrency_level(n);
        }
        let f: Pin<Box<dyn Future<Output = ()>>> = Box::pin(s.serve(Svc));
        f
    });
    let mut steps = 0u64;
    let mut ex = match built {
        Ok(f) => Ex { task: Task::new(f), stop: false, harness: None, dead: 0 },
        Err(p) => {
            let mut ex = Ex { task: Task::new(Box::pin(async {})), stop: true, harness: None, dead: 0 };
            ex.panicked(p);
            ex
        }
    };
    let mut last = 0;
    let mut closing = false;
    while !ex.stop && steps < 6000 && ex.task.fut.is_some() {
        steps += 1;
        let wk = ex.task.runnable();
        if !wk {
            let s = g(|w| w.seq);
            if s != last {
                g(|w| w.on_idle());
                last = g(|w| w.seq);
            }
        }
        let gates = closed_calls();
        let wt = g(|w| {
            let sent = w.msgs.len() as u32;
            let can_send = !closing && sent < max_msgs;
            let busy = can_send || wk || !w.wire.is_empty() || !gates.is_empty();
            [
                if wk { if piled { 3 } else { 30 } } else { 0 },
                if can_send { 20 } else { 0 },
                if !w.wire.is_empty() && !w.in_err { 25 } else { 0 },
                if gates.is_empty() { 0 } else if many { 1 } else { 10 },
                if busy && !w.lb_end && w.lb_total < 60 && !w.processed() { w_lb } else { 0 },
                if busy { w_out } else { 0 },
                if w.svc.door == Door::Shut { 8 } else { 0 },
                if w.sink.door == Door::Shut { 8 } else { 0 },
                if busy && w.svc.door != Door::Broken { w_fail } else { 0 },
                if busy && w.sink.door != Door::Broken { w_sfail } else { 0 },
                if busy && w.out_fault == 0 { w_ofault } else { 0 },
                if busy && !closing && sent > 2 { w_end } else { 0 },
                if busy && !w.lb_end { w_lbend } else { 0 },
            ]
        });
        if wt.iter().all(|&x| x == 0) {
            break;
        }
        match g(|w| w.ch.weighted(&wt)) {
            0 => ex.poll(),
            1 => g(|w| w.peer_send()),
            2 => g(|w| {
                let n = w.wire.len();
                let n = match w.chunk {
                    0 => n,
                    c => match w.ch.below(3) {
                        0 => n,
                        1 => 1 + w.ch.below(c.min(n as u32)) as usize,
                        _ => 1 + w.ch.below(n as u32) as usize,
                    },
                };
                if n < w.wire.len() {
                    w.fault("input_fragmented");
                }
                w.deliver(n)
            }),
            3 => {
                let k = g(|w| w.ch.below(gates.len() as u32)) as usize;
                open_call(gates[k]);
            }
            4 => g(|w| {
                for _ in 0..1 + w.ch.small(0, 3) {
                    let (r, v) = w.request();
                    w.ev(b'L', 0, || format!("loopback has {r}"));
                    w.lb.push_back((r, v));
                    w.lb_total += 1;
                }
                if let Some(k) = w.lb_waker.take() {
                    k.wake();
                }
            }),
            5 => g(|w| {
                w.out = match w.ch.weighted(&[30, 20, 30]) {
                    0 => Out::Open,
                    1 => Out::Stalled,
                    _ => Out::Credit(1 + w.ch.below(200)),
                };
                if w.out != Out::Open {
                    w.fault(if w.out == Out::Stalled { "output_stalled" } else { "output_limited" });
                }
                let m = w.out;
                w.ev(b'o', 0, || format!("output becomes {m:?}"));
                if m != Out::Stalled {
                    if let Some(k) = w.out_waker.take() {
                        k.wake();
                    }
                }
            }),
            6 => g(|w| {
                w.ev(b'G', 0, || "service becomes ready".into());
                w.svc.set(Door::Open)
            }),
            7 => g(|w| {
                w.ev(b'G', 1, || "sink becomes ready".into());
                w.sink.set(Door::Open)
            }),
            8 => g(|w| {
                w.ev(b'G', 2, || "service will fail".into());
                w.svc.set(Door::Broken)
            }),
            9 => g(|w| {
                w.ev(b'G', 3, || "sink will fail".into());
                w.sink.set(Door::Broken)
            }),
            10 => g(|w| {
                w.out_fault = 1 + w.ch.below(3);
                let f = w.out_fault;
                w.ev(b'E', f as u64, || format!("output will fail ({f})"));
                if let Some(k) = w.out_waker.take() {
                    k.wake();
                }
            }),
            11 => {
                closing = true;
                g(|w| {
                    w.fault("end_of_input");
                    let cut = w.ch.chance(30, 100);
                    let n = w.wire.len();
                    if n > 0 {
                        let n = if cut { w.ch.below(n as u32) as usize } else { n };
                        w.deliver(n);
                    }
                    w.wire.clear();
                    if w.ch.chance(25, 100) {
                        w.fault("input_error");
                        w.in_err = true;
                    } else {
                        w.in_eof = true;
                    }
                    w.ev(b'E', 0, || "input ends".into());
                    if let Some(k) = w.in_waker.take() {
                        k.wake();
                    }
                });
            }
            _ => g(|w| {
                w.fault("loopback_stream_ended");
                w.lb_end = true;
                w.ev(b'L', 1, || "loopback's stream will end".into());
                if let Some(k) = w.lb_waker.take() {
                    k.wake();
                }
            }),
        }
    }
    // Faults stop, everything is delivered; then the input ends, and serve() must return.
    for end in [false, true] {
        if ex.stop || ex.task.fut.is_none() {
            break;
        }
        g(|w| {
            w.calm = true;
            w.out = Out::Open;
            w.ev(b'k', 9, || if end { "the input ends".into() } else { "faults stop; everything is delivered".into() });
            if end {
                w.in_eof = true;
            }
            if w.svc.door == Door::Shut {
                w.svc.set(Door::Open);
            }
            if w.sink.door == Door::Shut {
                w.sink.set(Door::Open);
            }
            for k in [w.out_waker.take(), if end { w.in_waker.take() } else { None }].into_iter().flatten() {
                k.wake();
            }
            let n = w.wire.len();
            if n > 0 {
                w.deliver(n);
            }
        });
        for _ in 0..3000 {
            ex.run_idle();
            if ex.stop || ex.task.fut.is_none() {
                break;
            }
            g(|w| w.on_idle());
            match closed_calls().first() {
                Some(&i) => open_call(i),
                None => break,
            }
        }
    }
    if !ex.stop {
        g(|w| {
            if !w.done {
                w.viol(&["C12", "C13", "C20"], "serve() does not return although the input has ended and every call can finish".into());
            }
        });
    }
    let harness = ex.harness.take();
    let _ = guarded(|| drop(ex));
    let mut w = G.with(|c| c.borrow_mut().take()).unwrap();
    if w.max_active > 4 {
        w.probe("more_than_4_calls_in_progress");
    }
    for (k, n) in [("generic_calls", w.calls.len()), ("generic_frames", w.frames as usize), ("generic_loopback_requests", w.lb_total)] {
        if n > 0 {
            *w.probes.entry(k).or_insert(0) += n as u64;
        }
    }
    w.fp.add_u64(w.viols.len() as u64);
    let summary = json!({"client_messages": w.msgs.len(), "calls": w.calls.len(), "frames": w.frames, "loopback_requests": w.lb_total,
        "max_concurrent_calls": w.max_active, "level": level, "polls": w.polls, "events": w.seq});
    Outcome {
        nontrivial: w.calls.len() >= 2 && w.frames >= 2,
        viols: w.viols,
        log: w.ch.log,
        fp: w.fp.0,
        faults: w.faults,
        probes: w.probes,
        trace: w.trace.unwrap_or_default(),
        steps,
        polls: w.polls,
        events: w.seq,
        harness,
        summary,
    }
}
