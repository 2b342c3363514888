//! What is recorded during a run of the thread scenario. Every access is atomic for the scheduler.

use std::collections::BTreeMap;
use std::sync::atomic::{AtomicPtr, Ordering};
use std::task::Waker;

use futures::future::BoxFuture;
use simsched::NoPreempt;
use tower_lsp::jsonrpc::{Id, Response};
use tower_lsp::{Client, ExitedError};

#[derive(Clone, Debug)]
pub struct Viol {
    pub props: Vec<&'static str>,
    pub what: String,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OpKind {
    Ask,
    AskDrop(u32),
    Raw,
    Tell,
    TellDrop(u32),
    Log,
    Begin,
    Report,
    Finish,
}

impl OpKind {
    pub fn request(self) -> bool {
        matches!(self, OpKind::Ask | OpKind::AskDrop(_) | OpKind::Raw)
    }
    pub fn gated(self) -> bool {
        !matches!(self, OpKind::Raw | OpKind::Log)
    }
    pub fn method(self) -> &'static str {
        match self {
            OpKind::Ask | OpKind::AskDrop(_) | OpKind::Raw => "test/ask",
            OpKind::Tell | OpKind::TellDrop(_) => "test/tell",
            OpKind::Log => "window/logMessage",
            OpKind::Begin | OpKind::Report | OpKind::Finish => "$/progress",
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    /// Sent, no result to wait for.
    Done,
    Ok { op: i64, re: i64 },
    Err { code: i64, message: String },
    Exited,
}

pub struct Op {
    /// Ops of one sender that are not concurrent with each other.
    pub sender: usize,
    pub seqd: bool,
    pub kind: OpKind,
    /// For progress messages: the op whose number is the token.
    pub token: usize,
    pub id: Option<i64>,
    pub s: u64,
    pub e: Option<u64>,
    pub dropped: bool,
    pub out: Option<Out>,
    pub wire: Vec<usize>,
}

pub struct Wire {
    pub at: u64,
    pub op: Option<usize>,
    pub id: Option<Id>,
    /// Replies: when each began and ended, and what was sent.
    pub replies: Vec<(u64, Option<u64>, Rep)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rep {
    Ok(i64),
    Err(i64),
    Wrong,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Step {
    Yield,
    Gate(usize),
    Do(OpKind),
    Never,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CallKind {
    Init { fail: bool },
    Work,
    Note,
    Shutdown,
    Cancel,
    Exit,
}

pub struct Call {
    pub kind: CallKind,
    pub id: Option<Id>,
    /// What a cancellation names.
    pub target: Option<Id>,
    pub script: Vec<Step>,
    pub c0: u64,
    pub c1: u64,
    pub ready: Option<bool>,
    pub after_shutdown: bool,
    pub after_exit: bool,
    pub runs: Vec<usize>,
    pub res: Option<Result<Option<Response>, ()>>,
    /// The poll that resolved the future.
    pub res_at: Option<(u64, u64)>,
    pub drop_at: Option<(u64, Option<u64>)>,
}

impl Call {
    pub fn open(&self) -> bool {
        self.res.is_none() && self.drop_at.is_none()
    }
}

#[derive(Default)]
pub struct Run {
    pub call: usize,
    pub polls: Vec<u64>,
    pub finished: Option<u64>,
    pub dropped: Option<u64>,
}

pub type CallFut = BoxFuture<'static, Result<Option<Response>, ExitedError>>;

pub struct Task {
    pub fut: Option<CallFut>,
    pub ready: bool,
    pub polling: bool,
    pub done: bool,
    pub since: u64,
    pub call: usize,
}

#[derive(Default)]
pub struct World {
    pub seq: u64,
    pub ops: Vec<Op>,
    pub wire: Vec<Wire>,
    pub foreign: Vec<String>,
    pub calls: Vec<Call>,
    pub runs: Vec<Run>,
    pub tasks: Vec<Task>,
    pub helpers: Vec<usize>,
    pub stop_helpers: bool,
    pub gates_open: Vec<bool>,
    pub all_open: bool,
    pub gate_wakers: Vec<(usize, Waker)>,
    pub clients: Vec<Client>,
    pub started: bool,
    pub waiting_start: Vec<usize>,
    pub replyq: Vec<usize>,
    pub out_done: Option<u64>,
    pub replier: Option<usize>,
    pub refused_replies: Vec<(u64, u64)>,
    pub exit: Option<(u64, Option<u64>)>,
    pub close: Option<(u64, Option<u64>)>,
    pub draws: Vec<i64>,
    pub strays: u64,
    pub viols: Vec<Viol>,
    pub panics: Vec<String>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub service_dropped: Option<u64>,
    pub doing: Vec<&'static str>,
}

static W: AtomicPtr<World> = AtomicPtr::new(std::ptr::null_mut());

pub fn install() {
    W.store(Box::into_raw(Box::default()), Ordering::SeqCst);
}

/// Frees the world unless threads of the run may still point to it.
pub fn remove(free: bool) {
    let p = W.swap(std::ptr::null_mut(), Ordering::SeqCst);
    if free {
        drop(unsafe { Box::from_raw(p) });
    }
}

pub fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    let _g = NoPreempt::new();
    f(unsafe { &mut *W.load(Ordering::SeqCst) })
}

impl World {
    /// A new event.
    pub fn ev(&mut self, kind: u8, n: usize, f: impl FnOnce() -> String) -> u64 {
        self.seq += 1;
        simsched::fp(self.seq << 40 | (kind as u64) << 32 | n as u64);
        if simsched::tracing() {
            simsched::trace(f);
        }
        self.seq
    }
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_insert(0) += 1;
    }
    pub fn probe(&mut self, k: &'static str) {
        *self.probes.entry(k).or_insert(0) += 1;
    }
    pub fn viol(&mut self, props: &[&'static str], what: String) {
        let mut p = props.to_vec();
        p.push("C19");
        p.sort();
        p.dedup();
        if simsched::tracing() {
            simsched::trace(|| format!("VIOLATION {p:?}: {what}"));
        }
        if self.viols.len() < 8 {
            self.viols.push(Viol { props: p, what });
        }
    }
    pub fn wake_helpers(&mut self) {
        for &h in &self.helpers {
            simsched::unpark(h);
        }
    }
}
