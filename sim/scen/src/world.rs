//! State of one simulated session: the wire in both directions, the simulated client, the record
//! of everything the handlers did, and the faults injected.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Wake, Waker};

use serde_json::Value;
use simcore::chooser::{Chooser, Fnv};

use crate::clientcalls::{NtfKind, ReqKind};
use crate::methods::{MethodInfo, Pack};

thread_local! {
    static W: RefCell<Option<Box<World>>> = const { RefCell::new(None) };
}

pub fn install(world: World) {
    W.with(|w| *w.borrow_mut() = Some(Box::new(world)));
}
pub fn uninstall() -> Option<Box<World>> {
    W.with(|w| w.borrow_mut().take())
}
pub fn installed() -> bool {
    W.with(|w| w.try_borrow().map(|w| w.is_some()).unwrap_or(false))
}
/// Runs `f` on the world of this thread's session.
pub fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(w.borrow_mut().as_mut().expect("harness: no world installed")))
}

pub struct TaskFlag {
    pub woken: AtomicBool,
}
impl Wake for TaskFlag {
    fn wake(self: Arc<Self>) {
        self.woken.store(true, Ordering::Relaxed);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.woken.store(true, Ordering::Relaxed);
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub props: Vec<&'static str>,
    pub what: String,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    /// Valid request that runs a handler when accepted.
    Req,
    /// Valid notification that runs a handler when accepted.
    Ntf,
    /// Request for a registered method that must be refused with this code when accepted.
    BadReq(i64),
    /// Notification that must be ignored in every state.
    Ignored,
    /// Request for an unregistered method.
    Unknown,
    /// `$/cancelRequest` with an id: refused with -32600 in every state.
    CancelWithId,
    Cancel,
    Init,
    Shutdown,
    Exit,
    MalBody(i64),
    MalHeader,
    Reply,
    Stray,
    Empty,
}

pub struct Msg {
    pub k: K,
    pub id: Option<Value>,
    pub method: String,
    pub mi: usize,
    pub tok: u32,
    pub params: Option<Value>,
    pub target: Option<Value>,
    pub end_off: u64,
    pub avail_seq: Option<u64>,
    pub read_seq: Option<u64>,
    pub invs: Vec<usize>,
    /// The client's own view: a response attributed to this request has arrived.
    pub seen_resp: Option<u64>,
    pub special_frame: bool,
    /// Direct calls only: when a cancellation or exit that certainly hits this request was received.
    pub cancelled: Option<u64>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Running,
    Finished(Result<Value, Value>),
    Dropped,
}

pub struct Inv {
    pub msg: Option<usize>,
    pub method: &'static str,
    pub tok: u32,
    pub start: u64,
    pub end_seq: Option<u64>,
    pub end: End,
    pub steps: u32,
    pub parked: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Actor {
    Inv(usize),
    Bg(usize),
}

/// One `Client` request made by server code.
pub struct Call {
    pub actor: Actor,
    pub kind: ReqKind,
    pub tok: u32,
    pub begin: u64,
    pub begin_poll: u64,
    pub init_then: bool,
    pub exit_maybe_then: bool,
    pub exit_surely_then: bool,
    pub end_input_then: bool,
    pub done: Option<(u64, u64, Result<Value, Value>)>,
    pub dropped: bool,
    pub wire: Option<usize>,
}

/// One `Client` notification made by server code.
pub struct Ntf {
    pub actor: Actor,
    pub kind: NtfKind,
    pub tok: u32,
    pub begin: u64,
    pub begin_poll: u64,
    pub init_then: bool,
    pub exit_maybe_then: bool,
    pub exit_surely_then: bool,
    pub done: Option<(u64, u64)>,
    pub dropped: bool,
    pub wire: Vec<u64>,
}

/// A server-to-client request as the client sees it.
pub struct SReq {
    pub id: Value,
    pub call: Option<usize>,
    pub seen: u64,
    /// What the caller must get, and when the reply was fully read by the server.
    pub reply: Option<Reply>,
}
pub struct Reply {
    pub msg: usize,
    /// `Ok(v)` exactly v; `Err(Some(e))` exactly e; `Err(None)` any error with code -32700.
    pub expect: Result<Value, Option<Value>>,
}

pub struct Resp {
    pub id: Value,
    pub body: Value,
    pub seq: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OutMode {
    Open,
    Stalled,
    Credit(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OutFault {
    Write,
    Zero,
    Flush,
}

pub struct Gate {
    pub waker: Option<Waker>,
    pub open: bool,
    pub dead: bool,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub focus: &'static str,
    pub level: Option<usize>,
    pub max_msgs: u32,
    pub wmsg: [u32; 20],
    pub pipelined_init: bool,
    pub init_never: bool,
    pub chunk: u32,
    pub short_write: bool,
    pub flush_buffered: bool,
    pub pend_flush: bool,
    pub stalls: bool,
    pub spurious: u32,
    pub frame_variety: u32,
    pub text: u32,
    pub big: u32,
    /// Messages of megabytes that may still be drawn in this run.
    pub giants: u32,
    pub pack: Pack,
    /// How the streams fail.
    pub io_kind: std::io::ErrorKind,
    pub h_yield: u32,
    pub h_gate: u32,
    pub h_req: u32,
    pub h_ntf: u32,
    pub h_two: u32,
    pub h_prog: u32,
    pub h_spawn: u32,
    pub h_err: u32,
    pub h_steps: u32,
    pub h_drop: u32,
    pub h_burst: u32,
    pub init_err: u32,
    pub reply_err: u32,
    pub reply_bad: u32,
    pub null_ids: bool,
    pub methods_all: bool,
    pub ends: [u32; 8],
    pub wsched: [u32; 8],
    pub cover_calls: bool,
}

pub struct World {
    pub ch: Chooser,
    pub cfg: Cfg,
    pub table: &'static [MethodInfo],
    pub seq: u64,
    pub poll_no: u64,
    pub progress_at: u64,
    pub trace: Option<Vec<String>>,
    pub fp: Fnv,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub viols: Vec<Viol>,
    pub calm: bool,

    // Client to server.
    pub wire: VecDeque<u8>,
    pub wire_off: u64,
    pub deliv_off: u64,
    pub read_off: u64,
    pub in_buf: VecDeque<u8>,
    pub in_waker: Option<Waker>,
    pub in_eof: bool,
    pub in_err: bool,
    pub in_closed: bool,
    pub in_end_seq: Option<u64>,
    pub truncated: bool,
    pub next_avail: usize,
    pub next_read: usize,

    // Server to client.
    pub out_mode: OutMode,
    pub out_waker: Option<Waker>,
    pub out_blocked: bool,
    pub out_pend: Vec<u8>,
    pub out_vis: Vec<u8>,
    pub out_total: u64,
    pub out_fault: Option<OutFault>,
    pub out_failed: Option<u64>,
    pub out_broken: bool,
    pub flush_debt: u32,

    // The client.
    pub msgs: Vec<Msg>,
    pub resps: Vec<Resp>,
    pub sreqs: Vec<SReq>,
    /// Stray responses with the id of a possible future request of the server, and their messages.
    pub strays_ahead: Vec<(String, usize)>,
    pub sreq_ids: HashMap<String, usize>,
    pub next_id: i64,
    pub next_tok: u32,
    pub init_sent: bool,
    pub init_seen_ok: bool,
    pub initialized_sent: bool,
    pub shutdown_sent: bool,
    pub early_shutdown: Option<usize>,
    pub exit_msg: Option<usize>,
    pub sent_count: u32,
    pub mal_any: bool,

    // The server code.
    pub invs: Vec<Inv>,
    pub active: usize,
    pub max_active: usize,
    pub calls: Vec<Call>,
    pub ntfs: Vec<Ntf>,
    pub tok_call: HashMap<u32, usize>,
    pub tok_ntf: HashMap<(u32, u8), usize>,
    pub gates: Vec<Gate>,
    pub tok_msg: HashMap<u32, usize>,
    pub bg_count: usize,
    pub bg_done: usize,
    pub spawned: Vec<futures::future::BoxFuture<'static, ()>>,
    pub init_ok: Option<u64>,
    pub last_started: Option<usize>,
    pub idles: Vec<u64>,
    pub serve_done: Option<u64>,
    /// serve() was dropped before it had returned; only what C26 says is judged from then on.
    pub torn_down: bool,
    /// How many of the two streams have been dropped.
    pub pipes_dropped: u32,

    // Direct service calls: there is no byte stream and no server loop.
    pub direct: bool,
    pub direct_q: VecDeque<(usize, Vec<u8>)>,
    pub direct_cur: Option<usize>,
}

pub const IO_KINDS: [std::io::ErrorKind; 8] = [
    std::io::ErrorKind::BrokenPipe,
    std::io::ErrorKind::ConnectionReset,
    std::io::ErrorKind::UnexpectedEof,
    std::io::ErrorKind::InvalidData,
    std::io::ErrorKind::InvalidInput,
    std::io::ErrorKind::ConnectionAborted,
    std::io::ErrorKind::TimedOut,
    std::io::ErrorKind::Other,
];

impl World {
    pub fn new(ch: Chooser, cfg: Cfg, table: &'static [MethodInfo], trace: bool) -> Self {
        World {
            ch,
            cfg,
            table,
            seq: 0,
            poll_no: 0,
            progress_at: 0,
            trace: if trace { Some(vec![]) } else { None },
            fp: Fnv::default(),
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            viols: vec![],
            calm: false,
            wire: VecDeque::new(),
            wire_off: 0,
            deliv_off: 0,
            read_off: 0,
            in_buf: VecDeque::new(),
            in_waker: None,
            in_eof: false,
            in_err: false,
            in_closed: false,
            in_end_seq: None,
            truncated: false,
            next_avail: 0,
            next_read: 0,
            out_mode: OutMode::Open,
            out_waker: None,
            out_blocked: false,
            out_pend: vec![],
            out_vis: vec![],
            out_total: 0,
            out_fault: None,
            out_failed: None,
            out_broken: false,
            flush_debt: 0,
            msgs: vec![],
            resps: vec![],
            sreqs: vec![],
            strays_ahead: vec![],
            sreq_ids: HashMap::new(),
            next_id: 1,
            next_tok: 1,
            init_sent: false,
            init_seen_ok: false,
            initialized_sent: false,
            shutdown_sent: false,
            early_shutdown: None,
            exit_msg: None,
            sent_count: 0,
            mal_any: false,
            invs: vec![],
            active: 0,
            max_active: 0,
            calls: vec![],
            ntfs: vec![],
            tok_call: HashMap::new(),
            tok_ntf: HashMap::new(),
            gates: vec![],
            tok_msg: HashMap::new(),
            bg_count: 0,
            bg_done: 0,
            spawned: vec![],
            init_ok: None,
            last_started: None,
            idles: vec![],
            serve_done: None,
            torn_down: false,
            pipes_dropped: 0,
            direct: false,
            direct_q: VecDeque::new(),
            direct_cur: None,
        }
    }

    /// Records an event: advances time, fingerprints it and traces it.
    pub fn ev(&mut self, tag: u8, a: u64, text: impl FnOnce() -> String) -> u64 {
        self.seq += 1;
        self.progress_at = self.seq;
        self.fp.add(&[tag]);
        self.fp.add_u64(a);
        if let Some(t) = &mut self.trace {
            if t.len() < 20_000 {
                let s = text();
                t.push(format!("{:>5} {}", self.seq, s));
            }
        }
        self.seq
    }

    pub fn fault(&mut self, kind: &'static str) {
        *self.faults.entry(kind).or_insert(0) += 1;
    }
    pub fn probe(&mut self, kind: &'static str) {
        *self.probes.entry(kind).or_insert(0) += 1;
    }

    pub fn viol(&mut self, props: &[&'static str], what: String) {
        if self.torn_down && !props.contains(&"C26") {
            return;
        }
        if self.viols.len() < 50 {
            if let Some(t) = &mut self.trace {
                t.push(format!("{:>5} !! {:?} {}", self.seq, props, what));
            }
            self.viols.push(Viol { props: props.to_vec(), what });
        }
    }

    pub fn wake_in(&mut self) {
        if let Some(w) = self.in_waker.take() {
            w.wake();
        }
    }
    pub fn wake_out(&mut self) {
        if let Some(w) = self.out_waker.take() {
            w.wake();
        }
    }

    /// Exit has been read by the server / has certainly been processed by now.
    pub fn exit_read(&self) -> bool {
        self.exit_msg.is_some_and(|x| self.msgs[x].read_seq.is_some())
    }
    pub fn exit_surely(&self) -> bool {
        if self.direct {
            return self.exit_read();
        }
        // A server whose output has failed may stop before it gets to the exit.
        if self.out_failed.is_some() {
            return false;
        }
        self.exit_msg.is_some_and(|x| match self.msgs[x].read_seq {
            Some(r) => self.idles.last().is_some_and(|&i| i > r) || self.serve_done.is_some(),
            None => false,
        })
    }
    pub fn level(&self) -> usize {
        if self.direct {
            return usize::MAX;
        }
        self.cfg.level.unwrap_or(4)
    }
}
