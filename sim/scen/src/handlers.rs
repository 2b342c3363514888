//! What the server code of the simulated server does: every handler draws its steps from the
//! run's choices while it executes, and records them.

use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

use futures::future::{BoxFuture, FutureExt};
use serde_json::{json, Value};
use tower_lsp::jsonrpc::{Error, ErrorCode};
use tower_lsp::Client;

use crate::clientcalls::{self, NtfKind, ReqKind, StepGuard, REQ_KINDS, SIMPLE_NTFS};
use crate::methods::{find_tok, null_result_ok, sample_result, Arity, Engine, M_INITIALIZE};
use crate::world::*;

pub struct SessionEngine;

impl Engine for SessionEngine {
    fn handle(
        &self,
        client: &Client,
        method: &'static str,
        params: Option<Value>,
    ) -> BoxFuture<'static, Result<Value, Error>> {
        let client = client.clone();
        let method = method;
        async move {
            let inv = w(|w| w.begin_inv(method, params));
            let guard = InvGuard(inv);
            body(&client, Actor::Inv(inv)).await;
            let r = w(|w| w.finish_inv(inv));
            std::mem::forget(guard);
            r
        }
        .boxed()
    }
}

struct InvGuard(usize);
impl Drop for InvGuard {
    fn drop(&mut self) {
        if !installed() {
            return;
        }
        let i = self.0;
        w(|w| {
            w.active -= 1;
            w.invs[i].end = End::Dropped;
            let m = w.invs[i].method;
            let s = w.ev(b'x', i as u64, || format!("handler {i} ({m}) is dropped"));
            w.invs[i].end_seq = Some(s);
        });
    }
}

/// The named codes of JSON-RPC and LSP, independently of the conversions in the library.
const NAMED: [(i64, ErrorCode); 7] = [
    (-32700, ErrorCode::ParseError),
    (-32600, ErrorCode::InvalidRequest),
    (-32601, ErrorCode::MethodNotFound),
    (-32602, ErrorCode::InvalidParams),
    (-32603, ErrorCode::InternalError),
    (-32800, ErrorCode::RequestCancelled),
    (-32801, ErrorCode::ContentModified),
];

pub fn named(code: i64) -> ErrorCode {
    NAMED.iter().find(|n| n.0 == code).map_or(ErrorCode::ServerError(code), |n| n.1.clone())
}

/// The error object for `e`. A code which has a name is expected to bear it.
fn error_value(e: &Error) -> Value {
    let code = match &e.code {
        ErrorCode::ServerError(c) if NAMED.iter().any(|n| n.0 == *c) => json!(format!("nameless {c}")),
        ErrorCode::ServerError(c) => json!(c),
        c => NAMED.iter().find(|n| n.1 == *c).map_or(json!("unknown"), |n| json!(n.0)),
    };
    match &e.data {
        Some(d) => json!({"code": code, "message": e.message, "data": d}),
        None => json!({"code": code, "message": e.message}),
    }
}

impl World {
    fn begin_inv(&mut self, method: &'static str, params: Option<Value>) -> usize {
        let mi = self.table.iter().position(|m| m.rpc == method).expect("harness: unknown method");
        let tok = params.as_ref().and_then(find_tok);
        let msg = match tok {
            Some(t) => self.tok_msg.get(&t).copied(),
            None if self.direct => self.direct_cur,
            None => {
                let after = self.last_started;
                (0..self.msgs.len()).find(|&i| {
                    let m = &self.msgs[i];
                    m.mi == mi
                        && matches!(m.k, K::Ntf | K::Req | K::Shutdown)
                        && m.read_seq.is_some()
                        && m.invs.is_empty()
                        && after.map_or(true, |a| i > a)
                        // Known to have been refused or cancelled.
                        && m.seen_resp.is_none()
                })
            }
        };
        let i = self.invs.len();
        let s = self.ev(b'b', mi as u64, || format!("handler {i} ({method}) starts for message {msg:?}"));
        self.active += 1;
        self.max_active = self.max_active.max(self.active);
        if self.active > self.level() {
            let (a, l) = (self.active, self.level());
            self.viol(&["C05"], format!("{a} handlers in progress with a concurrency level of {l}"));
        }
        let itok = self.next_tok;
        self.next_tok += 1;
        match msg {
            None => {
                let p = params.clone();
                self.viol(&["C04", "C01", "C06", "C13"], format!("handler {method} runs for no message that was sent: {p:?}"));
            }
            Some(x) => {
                let m = &self.msgs[x];
                let mut bad: Vec<(&[&'static str], String)> = vec![];
                if m.mi != mi || !matches!(m.k, K::Req | K::Ntf | K::Init | K::Shutdown) {
                    bad.push((&["C04"], format!("handler {method} runs for message #{x} {:?} {}", m.k, m.method)));
                } else if self.table[mi].arity == Arity::Params {
                    let want = m.params.clone().map(|p| (self.table[mi].norm_params)(p).expect("harness: params"));
                    if want != params {
                        bad.push((&["C04", "C01"], format!("handler {method} got {params:?} instead of {want:?}")));
                    }
                }
                if !m.invs.is_empty() {
                    bad.push((&["C04", "C03", "C01", "C21"], format!("handler {method} runs a second time for message #{x}")));
                }
                if m.avail_seq.is_none() {
                    bad.push((&["C01", "C13"], format!("handler {method} runs for message #{x}, which has not fully arrived")));
                }
                if let Some(l) = self.last_started {
                    if l > x && !self.direct {
                        bad.push((&["C06"], format!("handler {method} for message #{x} starts after the one for #{l}")));
                    }
                }
                if m.cancelled.is_some() {
                    bad.push((&["C07"], format!("handler {method} starts for message #{x}, which has been cancelled")));
                }
                if self.direct && self.direct_cur != Some(x) {
                    bad.push((&["C04", "C21"], format!("handler {method} for message #{x} runs within the call of {:?}", self.direct_cur)));
                }
                if self.exit_msg.is_some_and(|e| x > e) {
                    bad.push((&["C11"], format!("handler {method} runs for message #{x} received after exit")));
                }
                if m.id.is_some() && self.exit_surely() {
                    bad.push((&["C11"], format!("request handler {method} starts after exit")));
                }
                if mi != M_INITIALIZE && self.init_ok.is_none() {
                    bad.push((&["C08"], format!("handler {method} runs before initialize succeeded")));
                }
                if mi == M_INITIALIZE {
                    if self.init_ok.is_some() {
                        bad.push((&["C09"], "initialize handler runs after initialize succeeded".into()));
                    }
                    if self.invs.iter().any(|v| v.method == "initialize" && v.end == End::Running) {
                        bad.push((&["C09"], "two initialize handlers run at once".into()));
                    }
                }
                if let Some(sd) = self.invs.iter().find(|v| v.method == "shutdown").and_then(|v| v.msg) {
                    if method == "shutdown" {
                        bad.push((&["C10"], "the shutdown handler runs twice".into()));
                    } else if x > sd && self.msgs[..].iter().filter(|m| m.k == K::Shutdown).count() == 1 {
                        bad.push((&["C10"], format!("handler {method} runs for message #{x} received after shutdown")));
                    }
                }
                for (p, t) in bad {
                    self.viol(p, t);
                }
                if self.msgs[x].invs.is_empty() {
                    self.last_started = Some(self.last_started.map_or(x, |l| l.max(x)));
                }
                self.msgs[x].invs.push(i);
            }
        }
        self.invs.push(Inv {
            msg,
            method,
            tok: itok,
            start: s,
            end_seq: None,
            end: End::Running,
            steps: 0,
            parked: false,
        });
        i
    }

    fn finish_inv(&mut self, i: usize) -> Result<Value, Error> {
        let method = self.invs[i].method;
        let tok = self.invs[i].tok;
        let mi = self.table.iter().position(|m| m.rpc == method).unwrap();
        let info = &self.table[mi];
        let perr = if mi == M_INITIALIZE { self.cfg.init_err } else { self.cfg.h_err };
        let r: Result<Value, Error> = if info.request && self.ch.chance(perr, 100) {
            let code = self.draw_code();
            let mut e = Error {
                code: named(code),
                message: format!("tok:{tok}").into(),
                data: None,
            };
            match self.ch.below(3) {
                0 => {}
                1 => e.data = Some(json!({"why": tok})),
                _ => e.data = Some(json!("$/handler-said-so")),
            }
            Err(e)
        } else if !info.request {
            Ok(Value::Null)
        } else if null_result_ok(info) && self.ch.chance(15, 100) {
            Ok(Value::Null)
        } else {
            let text = self.draw_text();
            Ok(sample_result(method, tok, text.as_deref()))
        };
        let rec = match &r {
            Ok(v) => Ok((info.norm_result)(v.clone())),
            Err(e) => Err(error_value(e)),
        };
        self.active -= 1;
        self.check_alive(Actor::Inv(i));
        let ok = r.is_ok();
        let s = self.ev(b'z', ok as u64, || format!("handler {i} ({method}) returns {}", if ok { "Ok" } else { "Err" }));
        self.invs[i].end = End::Finished(rec);
        self.invs[i].end_seq = Some(s);
        if mi == M_INITIALIZE && ok && self.init_ok.is_none() {
            self.init_ok = Some(s);
        }
        r
    }

    /// A handler whose request has been cancelled must not resume.
    fn check_alive(&mut self, actor: Actor) {
        if let Actor::Inv(i) = actor {
            if let Some(x) = self.invs[i].msg.filter(|&x| self.msgs[x].cancelled.is_some()) {
                self.viol(&["C07", "C11"], format!("handler {i} for message #{x} goes on although its request has been cancelled"));
            }
        }
    }

    fn draw_step(&mut self, actor: Actor, i: u32) -> Step {
        if i > 0 {
            self.check_alive(actor);
        }
        let c = &self.cfg;
        let is_bg = matches!(actor, Actor::Bg(_));
        let mut wt = [
            30,
            c.h_yield,
            if self.calm { 0 } else { c.h_gate },
            c.h_req,
            c.h_ntf,
            c.h_two,
            c.h_prog,
            if is_bg || self.bg_count > 6 { 0 } else { c.h_spawn },
            c.h_drop,
            c.h_burst,
        ];
        if i >= c.h_steps {
            return Step::Done;
        }
        if self.serve_done.is_some() {
            wt[0] += 60;
        }
        match self.ch.weighted(&wt) {
            0 => Step::Done,
            1 => Step::Yield,
            2 => Step::Gate,
            3 => Step::Req(self.draw_kind()),
            4 => Step::Ntf(self.draw_ntf()),
            5 => {
                let a = self.draw_kind();
                if self.ch.chance(40, 100) {
                    Step::ReqNtf(a, self.draw_ntf())
                } else {
                    let mut b = self.draw_kind();
                    if !b.has_token() && b == a {
                        b = ReqKind::Custom;
                    }
                    Step::Two(a, b)
                }
            }
            6 => Step::Prog(self.ch.below(clientcalls::PROGRESS_VARIANTS) as u8),
            7 => Step::Spawn,
            8 => Step::DropReq(self.draw_kind()),
            _ => Step::Burst(self.draw_ntf(), 2 + self.ch.below(6)),
        }
    }

    fn draw_kind(&mut self) -> ReqKind {
        let k = if self.cfg.cover_calls {
            REQ_KINDS[self.ch.below(REQ_KINDS.len() as u32) as usize]
        } else {
            [ReqKind::Custom, ReqKind::ShowMessageRequest, ReqKind::Raw, ReqKind::ApplyEdit]
                [self.ch.weighted(&[60, 15, 10, 15])]
        };
        if !k.has_token() && self.calls.iter().any(|c| c.kind == k && c.wire.is_none() && !self.certainly_unsent(c)) {
            return ReqKind::Custom;
        }
        k
    }

    /// The call was refused on the spot, or its handler is gone, so it cannot appear any more.
    fn certainly_unsent(&self, c: &Call) -> bool {
        matches!(&c.done, Some((_, _, Err(e))) if e["code"] == -32002)
    }

    fn draw_ntf(&mut self) -> NtfKind {
        if self.ch.chance(6, 100) {
            return NtfKind::Bare(self.ch.below(clientcalls::BARE) as u8);
        }
        SIMPLE_NTFS[self.ch.below(SIMPLE_NTFS.len() as u32) as usize]
    }

    /// Another notification which cannot be told from `k` might still be on its way.
    fn indistinct(&self, k: NtfKind) -> bool {
        matches!(k, NtfKind::Bare(_))
            && self.ntfs.iter().any(|n| n.kind == k && n.wire.is_empty() && !n.exit_surely_then)
    }

    fn begin_call(&mut self, actor: Actor, kind: ReqKind) -> (usize, u32) {
        let tok = self.next_tok;
        self.next_tok += 1;
        let i = self.calls.len();
        let s = self.ev(b'c', i as u64, || format!("{actor:?} makes client request {i} {kind:?} tok={tok}"));
        let (init_then, maybe, surely, end) =
            (self.init_ok.is_some(), self.exit_read(), self.exit_surely(), self.in_end_seq.is_some() || self.serve_done.is_some());
        self.calls.push(Call {
            actor,
            kind,
            tok,
            begin: s,
            begin_poll: self.poll_no,
            init_then,
            exit_maybe_then: maybe,
            exit_surely_then: surely,
            end_input_then: end,
            done: None,
            dropped: false,
            wire: None,
        });
        self.tok_call.insert(tok, i);
        (i, tok)
    }

    fn begin_ntf(&mut self, actor: Actor, kind: NtfKind, tok: u32) -> usize {
        let i = self.ntfs.len();
        let s = self.ev(b'n', i as u64, || format!("{actor:?} sends client notification {i} {kind:?} tok={tok}"));
        let (init_then, maybe, surely) = (self.init_ok.is_some(), self.exit_read(), self.exit_surely());
        self.ntfs.push(Ntf {
            actor,
            kind,
            tok,
            begin: s,
            begin_poll: self.poll_no,
            init_then,
            exit_maybe_then: maybe,
            exit_surely_then: surely,
            done: None,
            dropped: false,
            wire: vec![],
        });
        let step = match kind {
            NtfKind::Progress(_, s) => s,
            _ => 0,
        };
        self.tok_ntf.insert((tok, step), i);
        i
    }

    fn end_ntf(&mut self, i: usize, done: bool) {
        let s = self.ev(b'N', i as u64, || format!("client notification {i} {}", if done { "is sent" } else { "is abandoned" }));
        if done {
            self.ntfs[i].done = Some((s, self.poll_no));
            let n = &self.ntfs[i];
            let gated = (!n.init_then && !n.kind.exempt()) || n.exit_surely_then;
            if gated && n.begin_poll != self.poll_no {
                self.viol(&["C16"], format!("suppressed client notification {i} had to wait"));
            }
        } else {
            self.ntfs[i].dropped = true;
        }
    }
}

enum Step {
    Done,
    Yield,
    Gate,
    Req(ReqKind),
    Ntf(NtfKind),
    Two(ReqKind, ReqKind),
    ReqNtf(ReqKind, NtfKind),
    Prog(u8),
    Spawn,
    /// Starts a client request and abandons it after a while.
    DropReq(ReqKind),
    Burst(NtfKind, u32),
}

fn body<'a>(client: &'a Client, actor: Actor) -> BoxFuture<'a, ()> {
    async move {
        let mut i = 0;
        loop {
            let st = w(|w| w.draw_step(actor, i));
            i += 1;
            match st {
                Step::Done => return,
                Step::Yield => yield_now().await,
                Step::Gate => gate().await,
                Step::Req(k) => do_req(client, actor, k).await,
                Step::Ntf(k) => do_ntf(client, actor, k).await,
                Step::Two(a, b) => {
                    futures::join!(do_req(client, actor, a), do_req(client, actor, b));
                }
                Step::ReqNtf(a, b) => {
                    futures::join!(do_req(client, actor, a), do_ntf(client, actor, b));
                }
                Step::Prog(v) => do_progress(client, actor, v).await,
                Step::Spawn => {
                    let c = client.clone();
                    w(|w| {
                        let b = w.bg_count;
                        w.bg_count += 1;
                        w.ev(b's', b as u64, || format!("{actor:?} spawns background task {b}"));
                        w.probe("background_task");
                        w.spawned.push(
                            async move {
                                body(&c, Actor::Bg(b)).await;
                                crate::world::w(|w| {
                                    w.bg_done += 1;
                                    w.ev(b'S', b as u64, || format!("background task {b} ends"));
                                });
                            }
                            .boxed(),
                        );
                    });
                }
                Step::DropReq(k) => {
                    let n = w(|w| w.ch.below(3));
                    let timer = async {
                        for _ in 0..n {
                            yield_now().await;
                        }
                        if n > 0 {
                            gate().await;
                        }
                    };
                    futures::pin_mut!(timer);
                    let req = do_req(client, actor, k);
                    futures::pin_mut!(req);
                    futures::future::select(req, timer).await;
                    w(|w| w.probe("client_request_abandoned"));
                }
                Step::Burst(k, n) => {
                    for _ in 0..n {
                        do_ntf(client, actor, k).await;
                    }
                }
            }
        }
    }
    .boxed()
}

struct CallGuard(usize, bool);
impl Drop for CallGuard {
    fn drop(&mut self) {
        if !self.1 && installed() {
            let i = self.0;
            w(|w| {
                w.calls[i].dropped = true;
                w.ev(b'X', i as u64, || format!("client request {i} is abandoned"));
            });
        }
    }
}

async fn do_req(client: &Client, actor: Actor, k: ReqKind) {
    let (i, tok) = w(|w| w.begin_call(actor, k));
    let mut g = CallGuard(i, false);
    let r = clientcalls::request(client, k, tok).await;
    g.1 = true;
    w(|w| {
        let r = r.map_err(|e| error_value(&e));
        let text = match &r {
            Ok(v) => format!("Ok({v})"),
            Err(v) => format!("Err({v})"),
        };
        let s = w.ev(b'C', i as u64, || format!("client request {i} resolves to {text}"));
        let p = w.poll_no;
        w.calls[i].done = Some((s, p, r.clone()));
        w.check_call_result(i);
    });
}

async fn do_ntf(client: &Client, actor: Actor, k: NtfKind) {
    let (i, k) = w(|w| {
        let tok = w.next_tok;
        w.next_tok += 1;
        let k = if w.indistinct(k) { NtfKind::Custom } else { k };
        (w.begin_ntf(actor, k, tok), k)
    });
    let tok = w(|w| w.ntfs[i].tok);
    let g = StepGuard { f: Some(Box::new(move |d| if installed() { w(|w| w.end_ntf(i, d)) })) };
    clientcalls::notify(client, k, tok).await;
    g.done();
}

async fn do_progress(client: &Client, actor: Actor, variant: u8) {
    let tok = w(|w| {
        let t = w.next_tok;
        w.next_tok += 1;
        w.probe("progress_sequence");
        t
    });
    let hook = move |step: u8| {
        let i = w(|w| w.begin_ntf(actor, NtfKind::Progress(variant, step), tok));
        StepGuard { f: Some(Box::new(move |d| if installed() { w(|w| w.end_ntf(i, d)) })) }
    };
    clientcalls::progress(client, variant, tok, &hook).await;
}

/// Returns to the executor once.
pub fn yield_now() -> impl Future<Output = ()> + Send {
    struct Y(bool);
    impl Future for Y {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if self.0 {
                return Poll::Ready(());
            }
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
    Y(false)
}

/// Waits until the simulator opens this gate.
pub fn gate() -> impl Future<Output = ()> + Send {
    struct G(Option<usize>);
    impl Future for G {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            w(|w| {
                if w.calm && self.0.is_none() {
                    return Poll::Ready(());
                }
                let i = match self.0 {
                    Some(i) => i,
                    None => {
                        w.gates.push(Gate { waker: None, open: false, dead: false });
                        self.0 = Some(w.gates.len() - 1);
                        w.gates.len() - 1
                    }
                };
                if w.gates[i].open {
                    w.gates[i].dead = true;
                    self.0 = None;
                    return Poll::Ready(());
                }
                w.gates[i].waker = Some(cx.waker().clone());
                Poll::Pending
            })
        }
    }
    impl Drop for G {
        fn drop(&mut self) {
            if let Some(i) = self.0 {
                if installed() {
                    w(|w| {
                        w.gates[i].dead = true;
                        w.gates[i].waker = None;
                    });
                }
            }
        }
    }
    G(None)
}
