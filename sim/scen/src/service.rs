//! Direct calls on the real `LspService`, without `Server`: every call future is a task of its own that
//! may be polled, left alone or dropped at any point, and the `ClientSocket` is driven directly. A
//! reference model in lock step knows the lifecycle state and the ids in use at each call.

use std::cell::{Cell, RefCell};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::Ordering;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

use futures::future::poll_fn;
use futures::sink::Sink;
use futures::stream::Stream;
use serde_json::Value;
use simcore::chooser::Chooser;
use tower::Service;
use tower_lsp::jsonrpc::{Request, Response};
use tower_lsp::{ClientSocket, ExitedError};

use crate::handlers::SessionEngine;
use crate::methods::{build_service, MethodInfo, SimService};
use crate::peer::*;
use crate::runner::Outcome;
use crate::session::{guarded, open_gate, Task, ALL};
use crate::world::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum State {
    Uninit,
    Initializing,
    Initialized,
    ShutDown,
    Exited,
}

/// Does this call hold its id?
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Reg {
    No,
    Maybe,
    Yes,
    /// It was cancelled but has not been answered yet.
    Limbo,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Sure {
    No,
    Maybe,
    Yes,
}

type Slot = Rc<RefCell<Option<Result<Option<Value>, ()>>>>;

struct Call {
    msg: usize,
    at: State,
    reg: Reg,
    run: Sure,
    refuse: Vec<i64>,
    cancel: Sure,
    resolved: bool,
    dropped: bool,
    slot: Slot,
}

impl Call {
    fn open(&self) -> bool {
        !self.resolved && !self.dropped
    }
}

enum Socket {
    Gone,
    Stream(Pin<Box<dyn Stream<Item = Request>>>),
    Sink(#[allow(dead_code)] Pin<Box<dyn Sink<Response, Error = ExitedError>>>),
    Whole(ClientSocket),
    Split(Pin<Box<dyn Stream<Item = Request>>>, Pin<Box<dyn Sink<Response, Error = ExitedError>>>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Call(usize),
    Drain,
    Bg(usize),
}

struct Sim {
    service: Option<SimService>,
    socket: Rc<RefCell<Socket>>,
    drain_open: Rc<Cell<bool>>,
    drain_waker: Rc<RefCell<Option<Waker>>>,
    drain_done: Rc<Cell<bool>>,
    tasks: Vec<(Kind, Task)>,
    calls: Vec<Call>,
    state: State,
    drops: u32,
    bg: usize,
    dead_polls: u32,
    stop: bool,
    harness: Option<String>,
}

impl Sim {
    fn woken(&self) -> Vec<usize> {
        (0..self.tasks.len()).filter(|&i| self.tasks[i].1.runnable()).collect()
    }

    fn panicked(&mut self, p: String) {
        self.stop = true;
        if p.contains("harness:") {
            self.harness = Some(p);
        } else {
            w(|w| w.viol(ALL, format!("panic: {p}")));
        }
    }

    /// Properties that speak about the situation of this call.
    fn ctx(&self, ci: usize) -> Vec<&'static str> {
        let c = &self.calls[ci];
        let mut l = vec![];
        w(|w| {
            let m = &w.msgs[c.msg];
            if let Some(id) = &m.id {
                if w.msgs.iter().any(|o| o.target.as_ref() == Some(id)) {
                    l.push("C07");
                }
                if w.msgs.iter().filter(|o| o.id.as_ref() == Some(id)).count() > 1 {
                    l.push("C22");
                }
            }
            match m.k {
                K::Init => l.extend(["C08", "C09"]),
                K::Shutdown => l.push("C10"),
                _ => {}
            }
            match c.at {
                State::Uninit | State::Initializing => l.push("C08"),
                State::Initialized => {}
                State::ShutDown => l.push("C10"),
                State::Exited => l.push("C11"),
            }
            if w.exit_read() {
                l.push("C11");
            }
            if w.sreqs.iter().any(|s| s.reply.is_some() && s.call.is_some_and(|c| w.calls[c].dropped)) || w.msgs.iter().any(|m| m.k == K::Stray) {
                l.push("C15");
            }
        });
        if self.drops > 0 {
            l.push("C21");
        }
        l
    }

    fn viol(&self, ci: usize, base: &[&'static str], text: String) {
        let mut p = base.to_vec();
        p.extend(self.ctx(ci));
        p.sort();
        p.dedup();
        w(|w| w.viol(&p, text));
    }

    /// Hands everything the client has sent to the service.
    fn drain_client(&mut self) {
        loop {
            if self.stop {
                return;
            }
            let Some((i, body)) = w(|w| w.direct_q.pop_front()) else { return };
            let v: Value = serde_json::from_slice(&body).expect("harness: direct body");
            if v.get("result").is_none() && v.get("error").is_none() {
                let req: Request = serde_json::from_slice(&body).expect("harness: request");
                self.call(i, req);
            } else {
                let resp: Response = serde_json::from_slice(&body).expect("harness: response");
                self.reply(resp);
            }
        }
    }

    fn reply(&mut self, resp: Response) {
        let sock = self.socket.clone();
        let r = guarded(move || {
            let waker = futures::task::noop_waker();
            let mut cx = Context::from_waker(&waker);
            let mut s = sock.borrow_mut();
            match &mut *s {
                Socket::Whole(x) => feed(Pin::new(x), &mut cx, resp),
                Socket::Split(_, x) => feed(x.as_mut(), &mut cx, resp),
                _ => panic!("harness: no socket"),
            }
        });
        match r {
            Err(p) => self.panicked(p),
            Ok(ok) => {
                if !ok && self.state != State::Exited {
                    w(|w| w.viol(&["C14", "C15", "C20"], "the service does not take a response although it has not exited".into()));
                }
            }
        }
    }

    fn call(&mut self, i: usize, req: Request) {
        let (k, id, target) = w(|w| (w.msgs[i].k, w.msgs[i].id.clone(), w.msgs[i].target.clone()));
        let ci = self.calls.len();
        let at = self.state;
        let mut c = Call {
            msg: i,
            at,
            reg: Reg::No,
            run: Sure::No,
            refuse: vec![],
            cancel: Sure::No,
            resolved: false,
            dropped: false,
            slot: Rc::new(RefCell::new(None)),
        };
        // The model acts first.
        let gate = match at {
            State::Uninit | State::Initializing => -32002,
            _ => -32600,
        };
        if at != State::Exited {
            match k {
                K::Unknown => c.refuse.push(-32601),
                K::CancelWithId => c.refuse.push(-32600),
                K::Init => {
                    if at == State::Uninit {
                        self.state = State::Initializing;
                        c.reg = Reg::Yes;
                        c.run = Sure::Yes;
                    } else {
                        c.refuse.push(-32600);
                    }
                }
                K::Shutdown | K::Req | K::BadReq(_) => {
                    if at != State::Initialized {
                        c.refuse.push(gate);
                    } else {
                        if k == K::Shutdown {
                            self.state = State::ShutDown;
                        }
                        let mut used = Sure::No;
                        for o in &self.calls {
                            if o.open() && w(|w| w.msgs[o.msg].id == id) {
                                match o.reg {
                                    Reg::Yes => used = Sure::Yes,
                                    Reg::Maybe | Reg::Limbo if used == Sure::No => used = Sure::Maybe,
                                    _ => {}
                                }
                            }
                        }
                        if used != Sure::No {
                            c.refuse.push(-32600);
                        }
                        (c.reg, c.run) = match used {
                            Sure::Yes => (Reg::No, Sure::No),
                            Sure::Maybe => (Reg::Maybe, Sure::Maybe),
                            Sure::No => (Reg::Yes, Sure::Yes),
                        };
                        if used == Sure::Maybe {
                            w(|w| w.probe("id_reused_before_cancelled_answer"));
                        }
                    }
                }
                K::Ntf => {
                    if at == State::Initialized {
                        c.run = Sure::Yes;
                    }
                }
                K::Cancel => self.cancelled(&target.unwrap()),
                K::Exit => {
                    self.state = State::Exited;
                    for x in 0..self.calls.len() {
                        let o = &mut self.calls[x];
                        if o.open() && o.reg != Reg::No {
                            o.cancel = if o.reg == Reg::Maybe && o.cancel != Sure::Yes { Sure::Maybe } else { Sure::Yes };
                            if o.cancel == Sure::Yes {
                                let m = o.msg;
                                w(|w| {
                                    w.msgs[m].cancelled.get_or_insert(w.seq);
                                });
                            }
                            o.reg = Reg::Limbo;
                        }
                    }
                }
                K::Ignored => {}
                k => panic!("harness: {k:?} in a direct session"),
            }
        }
        let slot = c.slot.clone();
        self.calls.push(c);
        w(|w| {
            w.direct_cur = Some(i);
            w.ev(b'q', ci as u64, || format!("call {ci} is made for message #{i} in state {at:?}"));
        });
        let service = self.service.as_mut().expect("harness: no service");
        let waker = futures::task::noop_waker();
        let r = guarded(|| {
            let mut cx = Context::from_waker(&waker);
            let ready = service.poll_ready(&mut cx);
            (ready, service.call(req))
        });
        w(|w| w.direct_cur = None);
        match r {
            Err(p) => self.panicked(p),
            Ok((ready, fut)) => {
                match ready {
                    Poll::Ready(Ok(())) if at != State::Exited => {}
                    Poll::Ready(Err(_)) if at == State::Exited => {}
                    r => self.viol(ci, &["C11", "C20"], format!("poll_ready gives {r:?} in state {at:?}")),
                }
                self.tasks.push((
                    Kind::Call(ci),
                    Task::new(Box::pin(async move {
                        let r = fut.await;
                        *slot.borrow_mut() = Some(match r {
                            Ok(r) => Ok(r.map(|r| serde_json::to_value(&r).expect("harness: response"))),
                            Err(_) => Err(()),
                        });
                    })),
                ));
                // A call made after exit must be refused by its future alone.
            }
        }
        self.check_no_handler(ci);
    }

    /// The client cancels this id.
    fn cancelled(&mut self, target: &Value) {
        for x in 0..self.calls.len() {
            let o = &mut self.calls[x];
            if !o.open() || w(|w| w.msgs[o.msg].id.as_ref() != Some(target)) {
                continue;
            }
            match o.reg {
                Reg::Yes => {
                    o.cancel = Sure::Yes;
                    o.reg = Reg::Limbo;
                    let m = o.msg;
                    w(|w| {
                        w.msgs[m].cancelled = Some(w.seq);
                        w.probe(if w.msgs[m].invs.is_empty() { "cancel_before_first_poll" } else { "cancel_in_progress" });
                    });
                }
                Reg::Maybe => {
                    if o.cancel == Sure::No {
                        o.cancel = Sure::Maybe;
                    }
                }
                _ => {}
            }
        }
    }

    fn check_no_handler(&self, ci: usize) {
        let c = &self.calls[ci];
        if c.run == Sure::No && w(|w| !w.msgs[c.msg].invs.is_empty()) {
            self.viol(ci, &["C04"], format!("a handler runs for call {ci}, which had to be refused in state {:?}", c.at));
        }
    }

    fn poll(&mut self, i: usize) {
        let (kind, t) = &mut self.tasks[i];
        let kind = *kind;
        let Some(fut) = t.fut.as_mut() else { return };
        t.flag.woken.store(false, Ordering::Relaxed);
        let cur = if let Kind::Call(ci) = kind { Some(self.calls[ci].msg) } else { None };
        let before = w(|w| {
            w.poll_no += 1;
            w.fp.add(&[b'P', i as u8]);
            w.direct_cur = cur;
            if let Some(tr) = &mut w.trace {
                tr.push(format!("            -- poll {kind:?}"));
            }
            w.seq
        });
        let mut cx = Context::from_waker(&t.waker);
        let r = guarded(|| fut.as_mut().poll(&mut cx));
        w(|w| w.direct_cur = None);
        match r {
            Ok(Poll::Pending) => {}
            Ok(Poll::Ready(())) => {
                let f = self.tasks[i].1.fut.take();
                if let Err(p) = guarded(|| drop(f)) {
                    self.panicked(p);
                }
                if let Kind::Call(ci) = kind {
                    self.resolved(ci);
                }
            }
            Err(p) => self.panicked(p),
        }
        if let Kind::Call(ci) = kind {
            self.check_no_handler(ci);
            // A handler that runs settles whether its id was accepted.
            let c = &mut self.calls[ci];
            if c.reg == Reg::Maybe && w(|w| !w.msgs[c.msg].invs.is_empty()) {
                c.reg = if c.cancel == Sure::No { Reg::Yes } else { Reg::Maybe };
                c.run = Sure::Yes;
            }
        }
        let (spawned, after) = w(|w| (std::mem::take(&mut w.spawned), w.seq));
        for f in spawned {
            self.tasks.push((Kind::Bg(self.bg), Task::new(f)));
            self.bg += 1;
        }
        if after == before {
            self.dead_polls += 1;
            if self.dead_polls > 3000 {
                self.stop = true;
                w(|w| w.viol(&["C20", "C21"], "the service spins: thousands of polls without any progress".into()));
            }
        } else {
            self.dead_polls = 0;
        }
    }

    fn resolved(&mut self, ci: usize) {
        self.calls[ci].resolved = true;
        self.calls[ci].reg = Reg::No;
        let r = self.calls[ci].slot.borrow_mut().take().expect("harness: no result");
        let c = &self.calls[ci];
        let x = c.msg;
        let (k, id, method) = w(|w| (w.msgs[x].k, w.msgs[x].id.clone(), w.msgs[x].method.clone()));
        let s = w(|w| {
            let text = format!("call {ci} resolves to {r:?}");
            let mut h = simcore::chooser::Fnv::default();
            h.add(text.as_bytes());
            let s = w.ev(b'R', h.0, || text);
            w.msgs[x].seen_resp = Some(s);
            if let Ok(Some(v)) = &r {
                w.resps.push(Resp { id: v["id"].clone(), body: v.clone(), seq: s });
            }
            s
        });
        let _ = s;
        if c.at == State::Exited {
            if r.is_ok() {
                self.viol(ci, &["C11"], format!("call {ci} for {method} made after exit resolves to {r:?}"));
            }
            return;
        }
        let inv = w(|w| w.msgs[x].invs.first().map(|&v| (w.invs[v].end.clone(), w.invs[v].method)));
        let Some(id) = id else {
            if r != Ok(None) {
                self.viol(ci, &["C03"], format!("call {ci} for a notification ({method}) resolves to {r:?}"));
            }
            if k == K::Ntf && self.calls[ci].run == Sure::Yes && !matches!(inv, Some((End::Finished(_), _))) {
                self.viol(ci, &["C04", "C03"], format!("notification {method} of call {ci} was not handled to completion: {inv:?}"));
            }
            return;
        };
        let v = match &r {
            Ok(Some(v)) => v.clone(),
            r => {
                self.viol(ci, &["C03"], format!("call {ci} for request {method} resolves to {r:?}"));
                self.settle_init(ci, k, false);
                return;
            }
        };
        if v["id"] != id || v["jsonrpc"] != "2.0" || v.get("result").is_some() == v.get("error").is_some() {
            self.viol(ci, &["C03"], format!("call {ci} for request {method} id {id} resolves to {v}"));
        }
        let c = &self.calls[ci];
        let code = v["error"]["code"].as_i64();
        let mut ok = code.is_some_and(|x| c.refuse.contains(&x)) && inv.is_none();
        let mut want: Vec<String> = c.refuse.iter().map(|c| c.to_string()).collect();
        if c.cancel != Sure::No {
            want.push("-32800".into());
            ok |= code == Some(-32800) && !matches!(inv, Some((End::Finished(_), _)));
        }
        if c.run != Sure::No {
            if let K::BadReq(b) = k {
                want.push(b.to_string());
                ok |= code == Some(b);
            } else if c.cancel != Sure::Yes {
                match &inv {
                    Some((End::Finished(Ok(_)), "custom/unserializable")) => {
                        want.push("-32603".into());
                        ok |= code == Some(-32603);
                    }
                    Some((End::Finished(Ok(x)), _)) => {
                        want.push(x.to_string());
                        ok |= v.get("result") == Some(x);
                    }
                    Some((End::Finished(Err(x)), _)) => {
                        want.push(x.to_string());
                        ok |= v.get("error") == Some(x);
                    }
                    o => want.push(format!("what its handler returns ({o:?})")),
                }
            }
        }
        if !ok {
            self.viol(ci, &["C03", "C04"], format!("call {ci} for request {method} made in state {:?} resolves to {v}, expected one of {want:?}", c.at));
        }
        let success = v.get("result").is_some();
        if k == K::Init && success {
            w(|w| w.init_seen_ok = true);
        }
        self.settle_init(ci, k, success);
    }

    /// What the end of an accepted initialize means for the lifecycle.
    fn settle_init(&mut self, ci: usize, k: K, success: bool) {
        if k == K::Init && self.calls[ci].run == Sure::Yes && self.state == State::Initializing {
            self.state = if success { State::Initialized } else { State::Uninit };
        }
    }

    fn drop_call(&mut self, t: usize) {
        let Kind::Call(ci) = self.tasks[t].0 else { return };
        let x = self.calls[ci].msg;
        self.drops += 1;
        let (k, started) = w(|w| {
            w.fault("call_dropped");
            let started = w.msgs[x].invs.first().copied();
            w.probe(if started.is_some() { "drop_in_progress" } else { "drop_before_first_poll" });
            w.ev(b'Y', ci as u64, || format!("the caller drops call {ci} (message #{x})"));
            (w.msgs[x].k, started)
        });
        let f = self.tasks[t].1.fut.take();
        if let Err(p) = guarded(|| drop(f)) {
            self.panicked(p);
            return;
        }
        self.calls[ci].dropped = true;
        self.calls[ci].reg = Reg::No;
        w(|w| {
            w.msgs[x].seen_resp = Some(w.seq);
        });
        if let Some(v) = started {
            if w(|w| w.invs[v].end == End::Running) {
                self.viol(ci, &["C21"], format!("the handler of the dropped call {ci} is still alive"));
            }
        }
        self.settle_init(ci, k, false);
    }

    fn run_idle(&mut self) {
        let mut n = 0;
        while !self.stop {
            let wk = self.woken();
            if wk.is_empty() {
                break;
            }
            let k = w(|w| w.ch.below(wk.len() as u32)) as usize;
            self.poll(wk[k]);
            n += 1;
            if n > 20_000 {
                self.stop = true;
                w(|w| w.viol(&["C20", "C21"], "the service does not become idle".into()));
            }
        }
    }

    /// Nothing is woken: what was possible must have happened.
    fn idle_check(&mut self) {
        if self.stop || !self.woken().is_empty() {
            return;
        }
        let exit = self.state == State::Exited;
        w(|w| {
            w.seq += 1;
            let s = w.seq;
            if let Some(t) = &mut w.trace {
                t.push(format!("{s:>5} -- idle --"));
            }
            w.idles.push(s);
        });
        for ci in 0..self.calls.len() {
            let c = &self.calls[ci];
            if !c.open() {
                continue;
            }
            let m = w(|w| w.msgs[c.msg].id.is_some());
            let running = w(|w| w.msgs[c.msg].invs.iter().any(|&v| w.invs[v].end == End::Running));
            if c.cancel == Sure::Yes {
                let p: &[&'static str] = if exit { &["C11", "C07"] } else { &["C07"] };
                self.viol(ci, p, format!("call {ci} has been cancelled but is neither answered nor is anything going on"));
            } else if !running {
                self.viol(ci, &["C20", "C03"], format!("call {ci} is not answered although none of its code is left to run"));
            } else if exit && m {
                self.viol(ci, &["C11"], format!("call {ci} is still going on after exit"));
            }
        }
        if self.drain_open.get() {
            if exit && !self.drain_done.get() {
                w(|w| w.viol(&["C11", "C16"], "the stream of messages to the client does not end after exit".into()));
            }
            if !exit {
                if self.drain_done.get() {
                    w(|w| w.viol(&["C17", "C14", "C20"], "the stream of messages to the client ends although the service has not exited".into()));
                }
                w(|w| {
                    for (p, t) in w.idle_client() {
                        w.viol(&p, t);
                    }
                });
            }
        } else {
            w(|w| w.probe("idle_with_client_stream_stalled"));
        }
    }

    fn settle(&mut self) {
        w(|w| {
            w.calm = true;
            w.ev(b'k', 0, || "faults stop; everything is answered and read".into());
        });
        self.drain_open.set(true);
        if let Some(k) = self.drain_waker.borrow_mut().take() {
            k.wake();
        }
        for _ in 0..3000 {
            if self.stop {
                return;
            }
            let mut did = false;
            self.drain_client();
            if !self.woken().is_empty() {
                self.run_idle();
                did = true;
            }
            self.idle_check();
            let exit = self.state == State::Exited;
            let gate = w(|w| {
                let rep = if exit { None } else { (0..w.sreqs.len()).find(|&i| w.sreqs[i].reply.is_none()) };
                if let Some(si) = rep {
                    w.peer_reply(si);
                    did = true;
                }
                w.gates.iter().enumerate().filter(|(_, g)| !g.open && !g.dead && g.waker.is_some()).map(|(i, _)| i).next()
            });
            if let Some(g) = gate {
                open_gate(g);
                did = true;
            }
            if !did {
                return;
            }
        }
        w(|w| w.viol(&["C20", "C21"], "the calls do not settle".into()));
    }
}

impl Sim {
    fn dropping(&mut self, what: &str, x: impl FnOnce(&mut Sim)) {
        if self.stop {
            return;
        }
        w(|w| {
            w.ev(b'D', what.len() as u64, || format!("{what} is dropped"));
        });
        if let Err(p) = guarded(|| x(self)) {
            self.panicked(p);
        }
    }

    /// The socket is dropped, and maybe the service and the calls in progress, too.
    fn tear_down(&mut self) {
        let mut parts = w(|w| {
            w.fault("socket_dropped");
            if w.active > 0 {
                w.probe("dropped_with_handlers_running");
            }
            if w.bg_count > w.bg_done {
                w.probe("dropped_with_background_tasks_running");
            }
            w.torn_down = true;
            w.in_closed = true;
            let mut p = vec![0, 1];
            if w.ch.chance(60, 100) {
                p.push(2);
            }
            if w.ch.chance(40, 100) {
                p.push(3);
            }
            p
        });
        while !parts.is_empty() {
            let k = parts.swap_remove(w(|w| w.ch.below(parts.len() as u32)) as usize);
            match k {
                0 | 1 => {
                    let s = std::mem::replace(&mut *self.socket.borrow_mut(), Socket::Gone);
                    let (keep, gone): (Socket, Box<dyn std::any::Any>) = match (s, k) {
                        (Socket::Split(a, b), 0) => (Socket::Sink(b), Box::new(Socket::Stream(a))),
                        (Socket::Split(a, b), _) => (Socket::Stream(a), Box::new(Socket::Sink(b))),
                        (s, _) => (Socket::Gone, Box::new(s)),
                    };
                    *self.socket.borrow_mut() = keep;
                    self.dropping(["the stream of messages to the client", "the sink for responses"][k], |_| drop(gone));
                }
                2 => self.dropping("the service", |s| s.service = None),
                _ => {
                    for t in 0..self.tasks.len() {
                        if matches!(self.tasks[t].0, Kind::Call(ci) if self.calls[ci].open()) && !self.stop {
                            self.drop_call(t);
                        }
                    }
                }
            }
            if w(|w| w.ch.chance(30, 100)) {
                self.run_idle();
            }
        }
        self.drain_open.set(true);
        if let Some(k) = self.drain_waker.borrow_mut().take() {
            k.wake();
        }
    }

    /// Everybody goes on, and nobody waits for the client any more.
    fn after_tear_down(&mut self, value: &Arc<SessionEngine>) {
        w(|w| w.calm = true);
        for _ in 0..3000 {
            if self.stop {
                return;
            }
            self.run_idle();
            let gate = w(|w| w.gates.iter().enumerate().filter(|(_, g)| !g.open && !g.dead && g.waker.is_some()).map(|(i, _)| i).next());
            match gate {
                Some(g) => open_gate(g),
                None => break,
            }
        }
        let open = self.calls.iter().filter(|c| c.open()).count();
        let gone = self.service.is_none();
        w(|w| {
            if w.bg_done < w.bg_count {
                let n = w.bg_count - w.bg_done;
                w.viol(&["C26"], format!("{n} background task(s) hang on a client call after the socket is gone"));
            }
            if open > 0 || w.active > 0 {
                let n = w.active;
                w.viol(&["C26"], format!("{open} call(s) and {n} handler(s) do not finish after the socket is gone"));
            } else if gone && Arc::strong_count(value) > 1 {
                w.viol(&["C26"], "the language server still exists although service and socket are gone and no call is in progress".into());
            }
        });
    }
}

fn feed<S: Sink<Response> + ?Sized>(mut s: Pin<&mut S>, cx: &mut Context<'_>, resp: Response) -> bool {
    match s.as_mut().poll_ready(cx) {
        Poll::Ready(Ok(())) => {}
        _ => return false,
    }
    s.as_mut().start_send(resp).is_ok() && matches!(s.as_mut().poll_flush(cx), Poll::Ready(Ok(())))
}

pub fn run(focus: &'static str, ch: Chooser, trace: bool, table: &'static [MethodInfo]) -> Outcome {
    let mut ch = ch;
    let mut cfg = Cfg::draw(&mut ch, focus);
    for k in [K_MALBODY, K_MALHDR, K_EMPTY] {
        cfg.wmsg[k] = 0;
    }
    cfg.level = None;
    cfg.max_msgs += ch.below(20);
    if matches!(focus, "C21" | "C22" | "C07" | "ANY") {
        cfg.h_gate = [20, 60, 30][ch.below(3) as usize];
        cfg.wmsg[K_CANCEL] = [0, 15, 30][ch.below(3) as usize];
        cfg.wmsg[K_DUP] = [0, 6, 12][ch.below(3) as usize];
        cfg.wmsg[K_INIT] = [0, 0, 15][ch.below(3) as usize];
    }
    let spare_init = ch.chance(60, 100);
    let pdrop = if focus == "C21" { [3, 8, 20][ch.below(3) as usize] } else { [0, 0, 3, 8][ch.below(4) as usize] };
    let ppoll = [4, 20, 40][ch.below(3) as usize];
    let pidle = [0, 6, 40][ch.below(3) as usize];
    let stalls = ch.chance(25, 100);
    let spurious = ch.chance(25, 100);
    let exit_after = match focus {
        "C11" | "C16" => ch.chance(80, 100),
        _ => ch.chance(35, 100),
    };
    let max_msgs = cfg.max_msgs;
    let exit_at = if exit_after { ch.below(max_msgs) + 1 } else { u32::MAX };
    let split = ch.chance(50, 100);
    let pack = cfg.pack;
    let tear_at = match ch.chance(if focus == "C26" { 80 } else { 3 }, 100) {
        true => ch.below(max_msgs + 1),
        false => u32::MAX,
    };
    let mut world = World::new(ch, cfg, table, trace);
    world.direct = true;
    if let Some(t) = &mut world.trace {
        t.push(format!("      {:?} split={split} exit_at={exit_at}", world.cfg));
    }
    install(world);

    // Held by the user's server value.
    let value = Arc::new(SessionEngine);
    let engine = value.clone();
    let built = guarded(|| {
        let (service, socket) = build_service(engine, pack);
        let socket = if split {
            let (a, b) = socket.split();
            Socket::Split(Box::pin(a), Box::pin(b))
        } else {
            Socket::Whole(socket)
        };
        (service, socket)
    });
    let (service, socket) = match built {
        Ok(x) => x,
        Err(p) => {
            w(|w| w.viol(ALL, format!("panic: {p}")));
            return Outcome::from_world(*uninstall().unwrap(), 0, None);
        }
    };
    let mut sim = Sim {
        service: Some(service),
        socket: Rc::new(RefCell::new(socket)),
        drain_open: Rc::new(Cell::new(true)),
        drain_waker: Rc::new(RefCell::new(None)),
        drain_done: Rc::new(Cell::new(false)),
        tasks: vec![],
        calls: vec![],
        state: State::Uninit,
        drops: 0,
        bg: 0,
        dead_polls: 0,
        stop: false,
        harness: None,
    };
    // The client reads what the server sends.
    let (sock, open, waker, done) = (sim.socket.clone(), sim.drain_open.clone(), sim.drain_waker.clone(), sim.drain_done.clone());
    sim.tasks.push((
        Kind::Drain,
        Task::new(Box::pin(async move {
            loop {
                let item = poll_fn(|cx| {
                    if !open.get() {
                        *waker.borrow_mut() = Some(cx.waker().clone());
                        return Poll::Pending;
                    }
                    match &mut *sock.borrow_mut() {
                        Socket::Whole(x) => Pin::new(x).poll_next(cx),
                        Socket::Split(x, _) | Socket::Stream(x) => x.as_mut().poll_next(cx),
                        _ => Poll::Ready(None),
                    }
                })
                .await;
                match item {
                    Some(req) => {
                        let v = serde_json::to_value(&req).expect("harness: request");
                        w(|w| w.on_frame(v));
                    }
                    None => break,
                }
            }
            done.set(true);
            w(|w| w.ev(b'T', 0, || "the stream of messages to the client ends".into()));
        })),
    ));

    let mut steps = 0u64;
    let mut last_idle = 0;
    let mut exited = false;
    let mut after_exit = 0;
    while !sim.stop && steps < 6000 {
        steps += 1;
        let wk = sim.woken();
        if wk.is_empty() {
            let s = w(|w| w.seq);
            if s != last_idle {
                sim.idle_check();
                last_idle = w(|w| w.seq);
            }
        }
        let (gates, replies, can_send, sent) = w(|w| {
            (
                w.gates.iter().enumerate().filter(|(_, g)| !g.open && !g.dead && g.waker.is_some()).map(|(i, _)| i).collect::<Vec<_>>(),
                (0..w.sreqs.len()).filter(|&i| w.sreqs[i].reply.is_none()).collect::<Vec<_>>(),
                w.sent_count < max_msgs && (!exited || after_exit > 0),
                w.sent_count,
            )
        });
        let openc: Vec<usize> = (0..sim.tasks.len())
            .filter(|&t| matches!(sim.tasks[t].0, Kind::Call(ci) if sim.calls[ci].open()
                && !(spare_init && w(|w| w.msgs[sim.calls[ci].msg].k == K::Init))))
            .collect();
        let wt = [
            if wk.is_empty() { 0 } else { ppoll },
            if wk.is_empty() { 0 } else { pidle },
            if can_send { 20 } else { 0 },
            if openc.is_empty() { 0 } else { pdrop },
            if gates.is_empty() { 0 } else { 10 },
            if replies.is_empty() { 0 } else { 10 },
            if stalls && (can_send || !wk.is_empty()) { 4 } else { 0 },
            if !exited && sent >= exit_at { 15 } else { 0 },
            if spurious && (can_send || !wk.is_empty()) { 4 } else { 0 },
            if sent >= tear_at { 15 } else { 0 },
        ];
        if wt.iter().all(|&x| x == 0) || (!can_send && wk.is_empty() && gates.is_empty() && replies.is_empty()) {
            break;
        }
        match w(|w| w.ch.weighted(&wt)) {
            0 => {
                let k = w(|w| w.ch.below(wk.len() as u32)) as usize;
                sim.poll(wk[k]);
            }
            1 => sim.run_idle(),
            2 => {
                if exited {
                    after_exit -= 1;
                }
                w(|w| w.peer_send());
                sim.drain_client();
            }
            3 => {
                // Mostly calls whose handler has started.
                let started: Vec<usize> = openc
                    .iter()
                    .copied()
                    .filter(|&t| matches!(sim.tasks[t].0, Kind::Call(ci) if w(|w| !w.msgs[sim.calls[ci].msg].invs.is_empty())))
                    .collect();
                let from = if started.is_empty() || w(|w| w.ch.chance(25, 100)) { &openc } else { &started };
                let k = w(|w| w.ch.below(from.len() as u32)) as usize;
                sim.drop_call(from[k]);
            }
            4 => {
                let k = w(|w| w.ch.below(gates.len() as u32)) as usize;
                open_gate(gates[k]);
            }
            5 => {
                w(|w| {
                    let k = w.ch.below(replies.len() as u32) as usize;
                    if k > 0 {
                        w.fault("reply_reordered");
                    }
                    w.peer_reply(replies[k])
                });
                sim.drain_client();
            }
            6 => {
                let on = !sim.drain_open.get();
                sim.drain_open.set(on);
                if on {
                    if let Some(k) = sim.drain_waker.borrow_mut().take() {
                        k.wake();
                    }
                } else {
                    w(|w| w.fault("client_stream_stalled"));
                }
                w(|w| w.ev(b'o', on as u64, || format!("the client {} reading", if on { "goes on" } else { "stops" })));
            }
            7 => {
                exited = true;
                w(|w| {
                    w.fault("exit");
                    if w.active > 0 {
                        w.probe("exit_with_handlers_running");
                    }
                    w.send_exit();
                });
                after_exit = w(|w| w.ch.below(4));
                sim.drain_client();
            }
            8 => {
                let k = w(|w| {
                    w.fault("spurious_poll");
                    w.ch.below(sim.tasks.len() as u32)
                }) as usize;
                sim.poll(k);
            }
            _ => {
                sim.tear_down();
                break;
            }
        }
    }
    if w(|w| w.torn_down) {
        sim.after_tear_down(&value);
    } else {
        sim.settle();
    }
    if !sim.stop && !w(|w| w.torn_down) {
        for ci in 0..sim.calls.len() {
            if sim.calls[ci].open() {
                sim.viol(ci, &["C20", "C03"], format!("call {ci} is never answered"));
            }
        }
        w(|w| {
            if w.bg_done < w.bg_count {
                let n = w.bg_count - w.bg_done;
                w.viol(&["C11", "C14", "C17", "C20"], format!("{n} background task(s) hang on a client call"));
            }
            for (p, t) in w.client_traffic() {
                w.viol(&p, t);
            }
        });
    }
    let stop = sim.stop;
    let harness = sim.harness.clone();
    if let Err(p) = guarded(move || drop(sim)) {
        if !stop {
            w(|w| w.viol(ALL, format!("panic: {p}")));
        }
    }
    let _ = guarded(|| w(|w| w.spawned.clear()));
    Outcome::from_world(*uninstall().unwrap(), steps, harness)
}
