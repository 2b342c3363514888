//! The thread scenario: server code on several threads shares one `Client`, several threads poll and drop
//! the call futures of one service, the service is called from another thread, and the client's side of the
//! socket is driven by one or two more.

use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

use futures::future::poll_fn;
use futures::sink::{Sink, SinkExt};
use futures::stream::Stream;
use futures::task::ArcWake;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simcore::chooser::Chooser;
use simsched::{ch, NoPreempt, Policy};
use tower::Service;
use tower_lsp::jsonrpc::{self, Id, Request, Response};
use tower_lsp::lsp_types::*;
use tower_lsp::{Client, ClientSocket, ExitedError, LanguageServer, LspService};

use crate::world::*;

pub struct Cfg {
    pub clients: Vec<u32>,
    pub workers: u32,
    pub main_ops: u32,
    pub pre_init: bool,
    pub exit: bool,
    pub shutdown: bool,
    pub close_after: Option<u32>,
    pub silent_after_close: bool,
    /// The sink is dropped instead of being closed.
    pub drop_sink: bool,
    pub whole: bool,
    pub drop_rate: u32,
    pub dup_rate: u32,
    pub stray_rate: u32,
    pub client_in_handlers: bool,
    pub burst: bool,
    pub init_fail: bool,
    pub policy: Policy,
    pub prios: Vec<u32>,
    pub spurious: u32,
    pub drop_service: bool,
    pub out_slow: bool,
}

const GATES: usize = 4;

pub fn draw_cfg(c: &mut Chooser, focus: &str) -> Cfg {
    // Which half gets the weight.
    let half = match focus {
        "C26" => c.weighted(&[2, 6, 1]),
        "C07" | "C21" | "C22" | "C03" | "C11" => c.weighted(&[6, 1, 2]),
        "C14" | "C15" | "C16" | "C17" => c.weighted(&[1, 6, 2]),
        _ => c.weighted(&[3, 3, 2]),
    };
    let policy = match c.weighted(&[4, 10, 6]) {
        0 => Policy::Cooperative,
        1 => Policy::Walk { gap: [60, 4, 8, 15, 30, 200][c.below(6) as usize] },
        _ => {
            let d = 1 + c.below(5);
            Policy::Pct { changes: (0..d).map(|_| 1 + c.below(600)).collect() }
        }
    };
    let prios = (0..8).map(|_| c.below(1000)).collect();
    let nclients = if half == 0 { c.below(2) } else { 1 + c.below(3) };
    let clients = (0..nclients).map(|_| 1 + c.below(5)).collect();
    let workers = if half == 1 { c.below(2) } else { c.below(3) };
    let main_ops = if half == 1 { c.below(4) } else { 2 + c.below(12) };
    Cfg {
        clients,
        workers,
        main_ops,
        pre_init: !c.chance(1, 3),
        exit: c.chance(if focus == "C11" { 3 } else { 1 }, 4),
        shutdown: c.chance(1, 10),
        close_after: if c.chance(if focus == "C26" { 4 } else { 1 }, 5) { Some(c.below(4)) } else { None },
        drop_sink: c.chance(if focus == "C26" { 9 } else { 3 }, 10),
        silent_after_close: c.chance(3, 4),
        whole: c.chance(1, if focus == "C26" { 20 } else { 4 }),
        drop_rate: if c.chance(if focus == "C21" { 2 } else { 1 }, 3) { 6 } else { 0 },
        dup_rate: if c.chance(1, 3) { 3 } else { 0 },
        stray_rate: if c.chance(1, 3) { 3 } else { 0 },
        client_in_handlers: c.chance(1, 2),
        burst: c.chance(1, 80),
        init_fail: c.chance(1, 4),
        policy,
        prios,
        spurious: if c.chance(1, 3) { 12 } else { 0 },
        drop_service: c.chance(1, 8),
        out_slow: c.chance(1, 5),
    }
}

// ---------------------------------------------------------------- executor

struct ThreadWaker(usize);

impl ArcWake for ThreadWaker {
    fn wake_by_ref(a: &Arc<Self>) {
        let _g = NoPreempt::new();
        simsched::unpark(a.0);
    }
}

pub fn block_on<F: Future>(fut: F) -> F::Output {
    let waker = futures::task::waker(Arc::new(ThreadWaker(simsched::me())));
    let mut cx = Context::from_waker(&waker);
    let mut fut = Box::pin(fut);
    loop {
        match fut.as_mut().poll(&mut cx) {
            Poll::Ready(r) => return r,
            Poll::Pending => simsched::park(),
        }
    }
}

struct TaskWaker(usize);

impl ArcWake for TaskWaker {
    fn wake_by_ref(a: &Arc<Self>) {
        w(|w| {
            w.tasks[a.0].ready = true;
            w.wake_helpers();
        })
    }
}

async fn yield_async() {
    let mut first = true;
    poll_fn(|cx| {
        if first {
            first = false;
            cx.waker().wake_by_ref();
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    })
    .await
}

/// Polls one call future, or drops one. False if there is none to poll.
fn help_once(cfg: &Cfg) -> bool {
    enum What {
        Poll(usize, CallFut, u64),
        Drop(usize, CallFut),
    }
    let what = w(|w| {
        if cfg.drop_rate > 0 && ch().chance(1, 4 * cfg.drop_rate) {
            let l: Vec<usize> = (0..w.tasks.len()).filter(|&i| w.tasks[i].fut.is_some()).collect();
            if !l.is_empty() {
                let t = l[ch().below(l.len() as u32) as usize];
                let call = w.tasks[t].call;
                let d0 = w.ev(b'D', call, || format!("call {call} is being dropped"));
                w.calls[call].drop_at = Some((d0, None));
                w.tasks[t].done = true;
                w.fault("call_dropped");
                return Some(What::Drop(call, w.tasks[t].fut.take().unwrap()));
            }
        }
        let l: Vec<usize> = (0..w.tasks.len()).filter(|&i| w.tasks[i].fut.is_some() && w.tasks[i].ready).collect();
        if l.is_empty() {
            return None;
        }
        let t = l[ch().below(l.len() as u32) as usize];
        let call = w.tasks[t].call;
        w.tasks[t].ready = false;
        w.tasks[t].polling = true;
        let p0 = w.ev(b'p', call, || format!("polls call {call}"));
        w.tasks[t].since = p0;
        Some(What::Poll(t, w.tasks[t].fut.take().unwrap(), p0))
    });
    match what {
        None => false,
        Some(What::Drop(call, fut)) => {
            drop(fut);
            w(|w| {
                let d1 = w.ev(b'd', call, || format!("call {call} has been dropped"));
                w.calls[call].drop_at.as_mut().unwrap().1 = Some(d1);
                for r in w.calls[call].runs.clone() {
                    if w.runs[r].finished.is_none() && w.runs[r].dropped.is_none() {
                        w.viol(&["C21"], format!("the handler of dropped call {call} is still alive"));
                    }
                }
                w.wake_helpers();
            });
            true
        }
        Some(What::Poll(t, mut fut, p0)) => {
            let waker = futures::task::waker(Arc::new(TaskWaker(t)));
            let mut cx = Context::from_waker(&waker);
            let r = fut.as_mut().poll(&mut cx);
            match r {
                Poll::Ready(r) => {
                    // The resolved future goes away right here, as in every executor.
                    drop(fut);
                    w(|w| {
                        let call = w.tasks[t].call;
                        let p1 = w.ev(b'r', call, || format!("call {call} resolves: {}", show(&r)));
                        w.calls[call].res = Some(r.map_err(|_| ()));
                        w.calls[call].res_at = Some((p0, p1));
                        w.tasks[t].polling = false;
                        w.tasks[t].done = true;
                        w.wake_helpers();
                    });
                }
                Poll::Pending => w(|w| {
                    w.tasks[t].polling = false;
                    w.tasks[t].fut = Some(fut);
                    w.ev(b'n', w.tasks[t].call, || "it is pending".into());
                    w.wake_helpers();
                }),
            }
            true
        }
    }
}

fn show(r: &Result<Option<Response>, ExitedError>) -> String {
    match r {
        Ok(Some(r)) => serde_json::to_string(r).unwrap(),
        Ok(None) => "nothing".into(),
        Err(_) => "ExitedError".into(),
    }
}

// ---------------------------------------------------------------- server code

#[derive(Serialize, Deserialize)]
struct OpParams {
    op: i64,
}

#[derive(Serialize, Deserialize)]
struct Answer {
    op: i64,
    re: i64,
}

enum Ask {}
impl request::Request for Ask {
    type Params = OpParams;
    type Result = Answer;
    const METHOD: &'static str = "test/ask";
}

enum Tell {}
impl notification::Notification for Tell {
    type Params = OpParams;
    const METHOD: &'static str = "test/tell";
}

struct OpGuard(usize);

impl Drop for OpGuard {
    fn drop(&mut self) {
        let o = self.0;
        w(|w| {
            if w.ops[o].e.is_none() {
                let at = w.ev(b'x', o, || format!("op {o} is abandoned"));
                w.ops[o].e = Some(at);
                w.ops[o].dropped = true;
            }
        })
    }
}

fn op_begin(sender: usize, seqd: bool, kind: OpKind, token: Option<usize>) -> (usize, OpGuard) {
    w(|w| {
        let o = w.ops.len();
        let s = w.ev(b'o', o, || format!("op {o} of sender {sender} begins: {kind:?}"));
        w.ops.push(Op { sender, seqd, kind, token: token.unwrap_or(o), id: None, s, e: None, dropped: false, out: None, wire: vec![] });
        (o, OpGuard(o))
    })
}

fn op_end(o: usize, out: Out) {
    w(|w| {
        let e = w.ev(b'e', o, || format!("op {o} ends: {out:?}"));
        w.ops[o].e = Some(e);
        w.ops[o].out = Some(out);
    })
}

fn answer(r: jsonrpc::Result<Answer>) -> Out {
    match r {
        Ok(a) => Out::Ok { op: a.op, re: a.re },
        Err(e) => Out::Err { code: e.code.code(), message: e.message.to_string() },
    }
}

/// Polls a future some times and abandons it if it is not ready by then.
async fn limited<F: Future + Unpin>(mut fut: F, mut polls: u32) -> Option<F::Output> {
    poll_fn(move |cx| match Pin::new(&mut fut).poll(cx) {
        Poll::Ready(r) => Poll::Ready(Some(r)),
        Poll::Pending if polls == 0 => Poll::Ready(None),
        Poll::Pending => {
            polls -= 1;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    })
    .await
}

async fn exec(client: Client, sender: usize, seqd: bool, kind: OpKind) {
    match kind {
        OpKind::Ask => {
            let (o, _g) = op_begin(sender, seqd, kind, None);
            let r = client.send_request::<Ask>(OpParams { op: o as i64 }).await;
            op_end(o, answer(r));
        }
        OpKind::AskDrop(n) => {
            let (o, _g) = op_begin(sender, seqd, kind, None);
            let fut = Box::pin(client.send_request::<Ask>(OpParams { op: o as i64 }));
            if let Some(r) = limited(fut, n).await {
                op_end(o, answer(r));
            }
        }
        OpKind::Raw => {
            let (o, _g) = op_begin(sender, seqd, kind, None);
            let id = client.next_request_id();
            let Id::Number(n) = id.clone() else {
                w(|w| w.viol(&["C14"], format!("next_request_id gives {id:?}")));
                return;
            };
            w(|w| {
                w.ev(b'i', n as usize, || format!("op {o} draws id {n}"));
                w.ops[o].id = Some(n);
                w.draws.push(n);
            });
            let req = Request::build("test/ask").params(json!({ "op": o })).id(id.clone()).finish();
            let mut c = client.clone();
            let ready = poll_fn(|cx| c.poll_ready(cx)).await;
            let out = match (ready, c.call(req).await) {
                (_, Ok(Some(r))) => {
                    let (rid, res) = r.into_parts();
                    if rid != id {
                        w(|w| w.viol(&["C14"], format!("raw request {id} resolves with a response for {rid}")));
                    }
                    answer(res.and_then(|v| {
                        serde_json::from_value(v).map_err(|e| jsonrpc::Error { code: jsonrpc::ErrorCode::ParseError, message: e.to_string().into(), data: None })
                    }))
                }
                (_, Ok(None)) => {
                    w(|w| w.viol(&["C14"], format!("raw request {id} resolves with nothing")));
                    return;
                }
                (_, Err(_)) => Out::Exited,
            };
            op_end(o, out);
        }
        OpKind::Tell => {
            let (o, _g) = op_begin(sender, seqd, kind, None);
            client.send_notification::<Tell>(OpParams { op: o as i64 }).await;
            op_end(o, Out::Done);
        }
        OpKind::TellDrop(n) => {
            let (o, _g) = op_begin(sender, seqd, kind, None);
            let fut = Box::pin(client.send_notification::<Tell>(OpParams { op: o as i64 }));
            if limited(fut, n).await.is_some() {
                op_end(o, Out::Done);
            }
        }
        OpKind::Log => {
            let (o, _g) = op_begin(sender, seqd, kind, None);
            client.log_message(MessageType::LOG, format!("op {o}")).await;
            op_end(o, Out::Done);
        }
        OpKind::Begin | OpKind::Report | OpKind::Finish => {
            let (o, _g) = op_begin(sender, seqd, OpKind::Begin, None);
            let p = client.progress(NumberOrString::Number(o as i32), "work").begin().await;
            op_end(o, Out::Done);
            let (o2, _g2) = op_begin(sender, seqd, OpKind::Report, Some(o));
            p.report("on").await;
            op_end(o2, Out::Done);
            let (o3, _g3) = op_begin(sender, seqd, OpKind::Finish, Some(o));
            p.finish().await;
            op_end(o3, Out::Done);
        }
    }
}

fn draw_op(c: &mut Chooser) -> OpKind {
    match c.weighted(&[6, 3, 3, 6, 2, 2, 2]) {
        0 => OpKind::Ask,
        1 => OpKind::AskDrop(c.below(3)),
        2 => OpKind::Raw,
        3 => OpKind::Tell,
        4 => OpKind::TellDrop(c.below(2)),
        5 => OpKind::Log,
        _ => OpKind::Begin,
    }
}

/// Records the life of a handler future.
struct Traced {
    run: usize,
    fut: Pin<Box<dyn Future<Output = ()> + Send>>,
}

impl Traced {
    fn new(call: usize, client: Client) -> Traced {
        let (run, script) = w(|w| {
            let run = w.runs.len();
            w.runs.push(Run { call, ..Default::default() });
            w.ev(b'h', call, || format!("handler of call {call} is created"));
            if call >= w.calls.len() {
                w.viol(&["C04"], format!("a handler ran with token {call} which was not sent"));
                return (run, vec![]);
            }
            w.calls[call].runs.push(run);
            (run, w.calls[call].script.clone())
        });
        Traced {
            run,
            fut: Box::pin(async move {
                for s in script {
                    match s {
                        Step::Yield => yield_async().await,
                        Step::Gate(g) => {
                            poll_fn(|cx| {
                                w(|w| {
                                    if w.all_open || w.gates_open[g] {
                                        Poll::Ready(())
                                    } else {
                                        w.gate_wakers.push((g, cx.waker().clone()));
                                        Poll::Pending
                                    }
                                })
                            })
                            .await
                        }
                        Step::Do(k) => exec(client.clone(), 100 + run, true, k).await,
                        Step::Never => futures::future::pending().await,
                    }
                }
            }),
        }
    }
}

impl Future for Traced {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let run = self.run;
        w(|w| {
            let at = w.ev(b'H', run, || format!("handler run {run} is polled"));
            // What counts is when the poll of the call began.
            let call = w.runs[run].call;
            let at = w.tasks.get(call).map_or(at, |t| t.since);
            w.runs[run].polls.push(at);
        });
        let r = self.fut.as_mut().poll(cx);
        if r.is_ready() {
            w(|w| {
                let at = w.ev(b'F', run, || format!("handler run {run} finishes"));
                w.runs[run].finished = Some(at);
            });
        }
        r
    }
}

impl Drop for Traced {
    fn drop(&mut self) {
        let run = self.run;
        w(|w| {
            if w.runs[run].finished.is_none() {
                let at = w.ev(b'X', run, || format!("handler run {run} is dropped"));
                w.runs[run].dropped = Some(at);
            }
        })
    }
}

struct Backend {
    client: Client,
}

#[derive(Deserialize)]
struct Tok {
    tok: usize,
}

impl Backend {
    async fn work(&self, p: Tok) -> jsonrpc::Result<Value> {
        Traced::new(p.tok, self.client.clone()).await;
        Ok(json!({ "did": p.tok }))
    }
    async fn note(&self, p: Tok) {
        Traced::new(p.tok, self.client.clone()).await;
    }
}

#[tower_lsp::async_trait]
impl LanguageServer for Backend {
    async fn initialize(&self, p: InitializeParams) -> jsonrpc::Result<InitializeResult> {
        let tok = p.process_id.unwrap_or(9999) as usize;
        Traced::new(tok, self.client.clone()).await;
        if w(|w| matches!(w.calls.get(tok).map(|c| c.kind), Some(CallKind::Init { fail: true }))) {
            Err(jsonrpc::Error::invalid_params("not now"))
        } else {
            Ok(InitializeResult::default())
        }
    }
    async fn shutdown(&self) -> jsonrpc::Result<()> {
        Ok(())
    }
}

// ---------------------------------------------------------------- the thread that calls the service

struct Main {
    service: Option<LspService<Backend>>,
    next_id: i64,
    shutdown: bool,
    exited: bool,
}

impl Main {
    fn initialized(&self) -> bool {
        w(|w| w.calls.iter().any(|c| matches!(c.kind, CallKind::Init { .. }) && matches!(&c.res, Some(Ok(Some(r))) if r.is_ok())))
    }

    fn id(&mut self) -> Id {
        let _g = NoPreempt::new();
        match ch().weighted(&[5, 5, 2]) {
            0 => {
                self.next_id += 1;
                Id::Number(self.next_id)
            }
            1 => Id::Number(1 + ch().below(3) as i64),
            _ => Id::String(["1", "2"][ch().below(2) as usize].into()),
        }
    }

    fn call(&mut self, kind: CallKind, id: Option<Id>, target: Option<Id>, script: Vec<Step>) -> usize {
        let Some(service) = self.service.as_mut() else { panic!("harness: no service") };
        let n = w(|w| {
            let n = w.calls.len();
            let c0 = w.ev(b'c', n, || format!("call {n}: {kind:?} id {id:?} target {target:?} script {script:?}"));
            w.calls.push(Call {
                kind,
                id: id.clone(),
                target: target.clone(),
                script,
                c0,
                c1: u64::MAX,
                ready: None,
                after_shutdown: self.shutdown,
                after_exit: self.exited,
                runs: vec![],
                res: None,
                res_at: None,
                drop_at: None,
            });
            if kind == CallKind::Exit && w.exit.is_none() {
                w.exit = Some((c0, None));
            }
            n
        });
        let req = {
            let _g = NoPreempt::new();
            let b = match kind {
                CallKind::Init { .. } => Request::build("initialize").params(json!({ "capabilities": {}, "processId": n })),
                CallKind::Work => Request::build("test/work").params(json!({ "tok": n })),
                CallKind::Note => Request::build("test/note").params(json!({ "tok": n })),
                CallKind::Shutdown => Request::build("shutdown"),
                CallKind::Cancel => Request::build("$/cancelRequest").params(json!({ "id": target })),
                CallKind::Exit => Request::build("exit"),
            };
            match id {
                Some(id) => b.id(id).finish(),
                None => b.finish(),
            }
        };
        let mut cx = Context::from_waker(futures::task::noop_waker_ref());
        let ready = service.poll_ready(&mut cx);
        let fut: CallFut = service.call(req);
        w(|w| {
            let c1 = w.ev(b'C', n, || format!("call {n} is made"));
            let c = &mut w.calls[n];
            c.c1 = c1;
            c.ready = match ready {
                Poll::Ready(r) => Some(r.is_ok()),
                Poll::Pending => None,
            };
            if kind == CallKind::Exit {
                if let Some((_, e @ None)) = &mut w.exit {
                    *e = Some(c1);
                }
            }
            w.tasks.push(Task { fut: Some(fut), ready: true, polling: false, done: false, since: 0, call: n });
            w.wake_helpers();
        });
        match kind {
            CallKind::Exit => self.exited = true,
            CallKind::Shutdown => self.shutdown = true,
            _ => {}
        }
        n
    }

    fn script(&self, cfg: &Cfg) -> Vec<Step> {
        let _g = NoPreempt::new();
        let n = ch().below(4);
        (0..n)
            .map(|_| match ch().weighted(&[4, 4, if cfg.client_in_handlers { 4 } else { 0 }]) {
                0 => Step::Yield,
                1 => Step::Gate(ch().below(GATES as u32) as usize),
                _ => Step::Do(draw_op(ch())),
            })
            .collect()
    }

    fn open_gate(&mut self, g: usize) {
        let wakers = w(|w| {
            w.ev(b'g', g, || format!("gate {g} opens"));
            w.gates_open[g] = true;
            let (a, b) = std::mem::take(&mut w.gate_wakers).into_iter().partition::<Vec<_>, _>(|x| x.0 == g);
            w.gate_wakers = b;
            a
        });
        for (_, x) in wakers {
            x.wake();
        }
    }

    fn settle_init(&mut self, cfg: &Cfg) {
        // Until every initialize has been answered or dropped.
        self.open_all();
        while w(|w| w.calls.iter().any(|c| matches!(c.kind, CallKind::Init { .. }) && (c.res.is_none() && !matches!(c.drop_at, Some((_, Some(_))))))) {
            if !help_once(cfg) {
                simsched::park();
            }
        }
        w(|w| w.all_open = false);
    }

    fn open_all(&mut self) {
        let wakers = w(|w| {
            w.all_open = true;
            w.ev(b'G', 0, || "all gates open".into());
            std::mem::take(&mut w.gate_wakers)
        });
        for (_, x) in wakers {
            x.wake();
        }
    }

    fn cancel_some(&mut self) {
        let target = w(|w| {
            let ids: Vec<Id> = w.calls.iter().filter(|c| c.open()).filter_map(|c| c.id.clone()).collect();
            if !ids.is_empty() && !ch().chance(1, 5) {
                ids[ch().below(ids.len() as u32) as usize].clone()
            } else {
                let all: Vec<Id> = w.calls.iter().filter_map(|c| c.id.clone()).collect();
                if all.is_empty() {
                    Id::Number(77)
                } else {
                    all[ch().below(all.len() as u32) as usize].clone()
                }
            }
        });
        w(|w| w.fault("cancel"));
        self.call(CallKind::Cancel, None, Some(target), vec![]);
    }

    fn act(&mut self, cfg: &Cfg) {
        let up = self.initialized();
        let a = {
            let _g = NoPreempt::new();
            let early = if up { 0 } else { 6 };
            ch().weighted(&[8, 3, 6, 6, 5, 3, early, 2, if cfg.shutdown && up { 2 } else { 0 }, if cfg.exit { 1 } else { 0 }])
        };
        match a {
            0 => {
                let id = self.id();
                let mut s = self.script(cfg);
                if w(|_| ch().chance(1, 6)) {
                    s.push(Step::Never);
                }
                self.call(CallKind::Work, Some(id), None, s);
            }
            1 => {
                let s = self.script(cfg);
                self.call(CallKind::Note, None, None, s);
            }
            2 => self.cancel_some(),
            3 => {
                let g = w(|_| ch().below(GATES as u32) as usize);
                self.open_gate(g);
            }
            4 => {
                help_once(cfg);
            }
            5 => simsched::yield_now(),
            6 | 7 => {
                let id = self.id();
                let s = self.script(cfg);
                let fail = cfg.init_fail && w(|_| ch().chance(1, 2));
                self.call(CallKind::Init { fail }, Some(id), None, s);
            }
            8 => {
                self.next_id += 1;
                let id = Id::Number(self.next_id);
                self.call(CallKind::Shutdown, Some(id), None, vec![]);
            }
            _ => {
                w(|w| w.fault("exit"));
                self.call(CallKind::Exit, None, None, vec![]);
            }
        }
    }
}

fn main_thread(cfg: &'static Cfg) {
    // Nothing is shared before the start, so nothing is to be preempted.
    let setup = NoPreempt::new();
    let (service, socket) = LspService::build(|client| {
        w(|w| w.clients = vec![client.clone(); cfg.clients.len()]);
        Backend { client }
    })
    .custom_method("test/work", Backend::work)
    .custom_method("test/note", Backend::note)
    .finish();
    let mut m = Main { service: Some(service), next_id: 10, shutdown: false, exited: false };
    let me = simsched::me();
    SOCKET.put(socket);
    w(|w| w.helpers.push(me));
    let start = || {
        w(|w| {
            w.started = true;
            w.ev(b'S', 0, || "everybody starts".into());
            for t in w.waiting_start.drain(..) {
                simsched::unpark(t);
            }
        })
    };
    if cfg.pre_init {
        m.call(CallKind::Init { fail: false }, Some(Id::Number(1)), None, vec![]);
        while help_once(&NO_DROPS) {}
    }
    drop(setup);
    start();
    for _ in 0..cfg.main_ops {
        m.act(cfg);
    }
    if !cfg.pre_init && !m.initialized() && w(|_| !ch().chance(1, 5)) && !m.exited {
        m.settle_init(cfg);
        if !m.initialized() {
            let id = m.id();
            m.call(CallKind::Init { fail: false }, Some(id), None, vec![]);
            m.settle_init(cfg);
        }
    }
    if cfg.exit && !m.exited && w(|_| ch().chance(3, 4)) {
        for _ in 0..w(|_| ch().below(3)) {
            simsched::yield_now();
        }
        w(|w| w.fault("exit"));
        m.call(CallKind::Exit, None, None, vec![]);
        if w(|_| ch().chance(1, 2)) {
            let id = m.id();
            m.call(CallKind::Work, Some(id), None, vec![]);
        }
    }
    // What would never finish by itself is cancelled.
    if !m.exited {
        let ids: Vec<Id> = w(|w| w.calls.iter().filter(|c| c.open() && c.script.contains(&Step::Never)).filter_map(|c| c.id.clone()).collect());
        for id in ids {
            m.call(CallKind::Cancel, None, Some(id), vec![]);
        }
    }
    let drop_service = |m: &mut Main| {
        w(|w| {
            let at = w.ev(b'V', 0, || "the service is dropped".into());
            w.service_dropped = Some(at);
        });
        m.service = None;
    };
    if cfg.drop_service {
        drop_service(&mut m);
        w(|w| w.fault("service_dropped_early"));
    }
    m.open_all();
    loop {
        if help_once(cfg) {
            continue;
        }
        if w(|w| w.tasks.iter().all(|t| t.done)) {
            break;
        }
        w(|w| w.doing[me] = "waiting for the calls to resolve");
        simsched::park();
    }
    w(|w| {
        w.stop_helpers = true;
        w.wake_helpers();
    });
    if m.service.is_some() {
        drop_service(&mut m);
    }
}

static NO_DROPS: Cfg = Cfg {
    clients: vec![],
    workers: 0,
    main_ops: 0,
    pre_init: true,
    exit: false,
    shutdown: false,
    close_after: None,
    silent_after_close: false,
    drop_sink: false,
    whole: false,
    drop_rate: 0,
    dup_rate: 0,
    stray_rate: 0,
    client_in_handlers: false,
    burst: false,
    init_fail: false,
    policy: Policy::Cooperative,
    prios: vec![],
    spurious: 0,
    drop_service: false,
    out_slow: false,
};

fn worker_thread(cfg: &'static Cfg) {
    let me = simsched::me();
    w(|w| {
        w.helpers.push(me);
        w.doing[me] = "worker";
    });
    while !w(|w| w.stop_helpers) {
        if !help_once(cfg) {
            simsched::park();
        }
    }
}

// ---------------------------------------------------------------- other server threads

fn wait_start() {
    let me = simsched::me();
    while !w(|w| {
        if !w.started {
            w.waiting_start.push(me);
        }
        w.started
    }) {
        simsched::park();
    }
}

fn client_thread(cfg: &'static Cfg, ops: u32) {
    let me = simsched::me();
    w(|w| w.doing[me] = "server code with a cloned client");
    wait_start();
    let client = w(|w| w.clients.pop().expect("harness: client"));
    if cfg.burst && w(|_| ch().chance(1, 2)) {
        let _g = NoPreempt::new();
        let n = [70_000, 300][ch().below(2) as usize];
        let mut v: Vec<i64> = (0..n)
            .map(|_| match client.next_request_id() {
                Id::Number(n) => n,
                id => panic!("next_request_id gives {id:?}"),
            })
            .collect();
        w(|w| {
            w.draws.append(&mut v);
            w.probe("id_bursts");
            w.ev(b'B', n, || format!("{n} ids are drawn"));
        });
    }
    for _ in 0..ops {
        let (a, k1, k2) = w(|_| (ch().weighted(&[12, 3, 2, 1]), draw_op(ch()), draw_op(ch())));
        match a {
            0 => block_on(exec(client.clone(), me, true, k1)),
            1 => {
                block_on(futures::future::join(exec(client.clone(), me, false, k1), exec(client.clone(), me, false, k2)));
            }
            2 => {
                if let Id::Number(n) = client.next_request_id() {
                    w(|w| {
                        w.ev(b'i', n as usize, || format!("id {n} is drawn"));
                        w.draws.push(n)
                    });
                }
            }
            _ => {
                let _ = format!("{client:?}");
            }
        }
    }
}

// ---------------------------------------------------------------- the language client

struct SocketCell(std::sync::Mutex<Option<ClientSocket>>);
impl SocketCell {
    fn put(&self, s: ClientSocket) {
        let _g = NoPreempt::new();
        *self.0.lock().unwrap_or_else(|e| e.into_inner()) = Some(s);
    }
    fn take(&self) -> ClientSocket {
        let _g = NoPreempt::new();
        self.0.lock().unwrap_or_else(|e| e.into_inner()).take().expect("harness: socket")
    }
}
static SOCKET: SocketCell = SocketCell(std::sync::Mutex::new(None));

fn record(req: Request) {
    w(|w| {
        let (method, id, params) = req.into_parts();
        let n = w.wire.len();
        let p = params.clone().unwrap_or(Value::Null);
        let at = w.ev(b'w', n, || format!("wire {n}: {method} {id:?} {p}"));
        let find = |w: &World| -> Option<usize> {
            let o = match &*method {
                "test/ask" | "test/tell" => p["op"].as_u64()? as usize,
                "window/logMessage" => p["message"].as_str()?.strip_prefix("op ")?.parse().ok()?,
                "$/progress" => {
                    let t = p["token"].as_u64()? as usize;
                    let k = match p["value"]["kind"].as_str()? {
                        "begin" => OpKind::Begin,
                        "report" => OpKind::Report,
                        _ => OpKind::Finish,
                    };
                    w.ops.iter().position(|o| o.token == t && o.kind == k)?
                }
                _ => return None,
            };
            let op = w.ops.get(o)?;
            (op.kind.method() == method && op.kind.request() == id.is_some()).then_some(o)
        };
        let op = find(w);
        match op {
            Some(o) => w.ops[o].wire.push(n),
            None => w.foreign.push(format!("{method} {id:?} {p}")),
        }
        let request = id.is_some();
        w.wire.push(Wire { at, op, id, replies: vec![] });
        if request {
            w.replyq.push(n);
        }
        if let Some(t) = w.replier {
            simsched::unpark(t);
        }
    })
}

/// The responses to send next, as decided by the seed: possibly strays and duplicates around the real one.
fn next_replies(cfg: &Cfg) -> Vec<(Option<(usize, Rep)>, Response)> {
    w(|w| {
        let mut l = vec![];
        if cfg.stray_rate > 0 && ch().chance(1, cfg.stray_rate) {
            w.fault("stray_response");
            w.strays += 1;
            let id = match ch().below(4) {
                0 => Id::Number(-5),
                1 => Id::Null,
                2 => Id::String("0".into()),
                _ => Id::Number(5_000_000_000),
            };
            l.push((None, Response::from_ok(id, json!({ "op": -1, "re": -1 }))));
        }
        if cfg.silent_after_close && w.close.is_some() {
            // The connection is lost.
            w.replyq.clear();
        }
        if w.replyq.is_empty() {
            return l;
        }
        let i = ch().below(w.replyq.len() as u32) as usize;
        let n = w.replyq.remove(i);
        let Some(Id::Number(id)) = w.wire[n].id.clone() else {
            w.viol(&["C14"], format!("a client request bears the id {:?}", w.wire[n].id));
            return l;
        };
        let op = w.wire[n].op.map(|o| o as i64).unwrap_or(-1);
        let mut one = |w: &mut World, re: i64| {
            let rep = match ch().weighted(&[6, 2, 1]) {
                0 => Rep::Ok(re),
                1 => Rep::Err(7000 + op),
                _ => Rep::Wrong,
            };
            let r = match rep {
                Rep::Ok(re) => Response::from_ok(Id::Number(id), json!({ "op": op, "re": re })),
                Rep::Err(c) => {
                    w.fault("error_reply");
                    Response::from_error(Id::Number(id), jsonrpc::Error { code: jsonrpc::ErrorCode::ServerError(c), message: "no".into(), data: None })
                }
                Rep::Wrong => {
                    w.fault("wrong_type_reply");
                    Response::from_ok(Id::Number(id), json!("what"))
                }
            };
            l.push((Some((n, rep)), r));
        };
        one(w, id);
        if cfg.dup_rate > 0 && ch().chance(1, cfg.dup_rate) {
            w.fault("duplicate_response");
            one(w, -7);
        }
        l
    })
}

fn reply_begin(to: &Option<(usize, Rep)>) -> u64 {
    w(|w| {
        let n = to.map(|x| x.0).unwrap_or(9999);
        let at = w.ev(b'a', n, || format!("reply to wire {n}: {to:?}"));
        if let Some((n, rep)) = to {
            w.wire[*n].replies.push((at, None, *rep));
        }
        at
    })
}

fn reply_end(to: &Option<(usize, Rep)>, from: u64, ok: bool) {
    w(|w| {
        let at = w.ev(b'A', ok as usize, || format!("it is {}", if ok { "taken" } else { "refused" }));
        if let Some((n, _)) = to {
            if ok {
                w.wire[*n].replies.last_mut().unwrap().1 = Some(at);
            } else {
                w.wire[*n].replies.pop();
            }
        }
        if !ok {
            w.refused_replies.push((from, at));
        }
    })
}

fn out_ended(at_end: bool) {
    w(|w| {
        let at = w.ev(b'E', 0, || "the request stream ends".into());
        w.out_done = Some(at);
        let _ = at_end;
        if let Some(t) = w.replier {
            simsched::unpark(t);
        }
    })
}

type Requests = Pin<Box<dyn Stream<Item = Request> + Send>>;

fn out_thread(cfg: &'static Cfg, split: std::sync::mpsc::Receiver<Requests>) {
    let me = simsched::me();
    w(|w| w.doing[me] = "reading the request stream");
    wait_start();
    let mut s = loop {
        match split.try_recv() {
            Ok(s) => break s,
            Err(_) => simsched::yield_now(),
        }
    };
    loop {
        match block_on(poll_fn(|cx| s.as_mut().poll_next(cx))) {
            Some(r) => record(r),
            None => break,
        }
        if cfg.out_slow {
            for _ in 0..w(|_| ch().below(4)) {
                simsched::yield_now();
            }
        }
    }
    out_ended(true);
}

fn reply_thread(cfg: &'static Cfg, split: std::sync::mpsc::Sender<Requests>) {
    let me = simsched::me();
    w(|w| {
        w.replier = Some(me);
        w.doing[me] = "answering requests";
    });
    wait_start();
    let (stream, mut sink) = SOCKET.take().split();
    {
        let _g = NoPreempt::new();
        split.send(Box::pin(stream)).ok();
    }
    let mut sent = 0;
    loop {
        if cfg.close_after == Some(sent) && w(|w| w.close.is_none()) {
            if cfg.drop_sink {
                closing("dropped", || drop(sink));
                return;
            }
            close(&mut sink);
        }
        let l = next_replies(cfg);
        if l.is_empty() {
            if w(|w| w.out_done.is_some() && w.replyq.is_empty()) {
                break;
            }
            simsched::park();
            continue;
        }
        for (to, r) in l {
            let from = reply_begin(&to);
            let ok = block_on(sink.send(r)).is_ok();
            reply_end(&to, from, ok);
        }
        sent += 1;
    }
}

fn close<S: Sink<Response, Error = ExitedError> + Unpin>(sink: &mut S) {
    closing("closed", || {
        let _ = block_on(sink.close());
    });
}

fn closing(how: &'static str, f: impl FnOnce()) {
    w(|w| {
        let at = w.ev(b'k', 0, || format!("the response sink is {how}"));
        w.close = Some((at, None));
        w.fault(if how == "closed" { "response_sink_closed" } else { "response_sink_dropped" });
    });
    f();
    w(|w| {
        let at = w.ev(b'K', 0, || format!("the response sink has been {how}"));
        w.close.as_mut().unwrap().1 = Some(at);
    });
}

/// Both directions of an unsplit socket on one thread.
fn socket_thread(cfg: &'static Cfg) {
    let me = simsched::me();
    w(|w| w.doing[me] = "driving the client socket");
    wait_start();
    let mut s = SOCKET.take();
    let waker = futures::task::waker(Arc::new(ThreadWaker(me)));
    let mut sent = 0;
    loop {
        if cfg.close_after == Some(sent) && w(|w| w.close.is_none()) {
            close(&mut s);
        }
        let mut cx = Context::from_waker(&waker);
        let polled = Pin::new(&mut s).poll_next(&mut cx);
        let pending = polled.is_pending();
        match polled {
            Poll::Ready(None) => break,
            Poll::Ready(Some(r)) => record(r),
            Poll::Pending => {}
        }
        if w(|w| !w.replyq.is_empty() && ch().chance(1, 2)) || pending {
            let l = next_replies(cfg);
            if l.is_empty() && pending {
                simsched::park();
            }
            if l.iter().any(|x| x.0.is_some()) {
                sent += 1;
            }
            for (to, r) in l {
                let from = reply_begin(&to);
                let ok = block_on(s.send(r)).is_ok();
                reply_end(&to, from, ok);
            }
        }
    }
    out_ended(true);
    // Whatever was asked before the end gets its answer, too.
    while w(|w| !w.replyq.is_empty()) {
        for (to, r) in next_replies(cfg) {
            let from = reply_begin(&to);
            let ok = block_on(s.send(r)).is_ok();
            reply_end(&to, from, ok);
        }
    }
}

// ---------------------------------------------------------------- setup

pub fn bodies(cfg: &'static Cfg) -> Vec<Box<dyn FnOnce() + Send>> {
    let mut v: Vec<Box<dyn FnOnce() + Send>> = vec![Box::new(move || main_thread(cfg))];
    if cfg.whole {
        v.push(Box::new(move || socket_thread(cfg)));
    } else {
        let (tx, rx) = std::sync::mpsc::channel();
        v.push(Box::new(move || reply_thread(cfg, tx)));
        v.push(Box::new(move || out_thread(cfg, rx)));
    }
    for _ in 0..cfg.workers {
        v.push(Box::new(move || worker_thread(cfg)));
    }
    for &n in &cfg.clients {
        v.push(Box::new(move || client_thread(cfg, n)));
    }
    v
}

pub fn names(cfg: &Cfg) -> Vec<String> {
    let mut v = vec!["service".to_string()];
    if cfg.whole {
        v.push("socket".into());
    } else {
        v.extend(["reply".into(), "out".into()]);
    }
    v.extend((0..cfg.workers).map(|i| format!("worker {i}")));
    v.extend((0..cfg.clients.len()).map(|i| format!("client {i}")));
    v
}

pub fn prepare_world(threads: usize) {
    w(|w| {
        w.gates_open = vec![false; GATES];
        w.doing = vec![""; threads];
    });
}
