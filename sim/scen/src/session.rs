//! One simulated session: the real `Server`, `LspService` and codec between two simulated byte
//! streams, driven by a single-threaded executor whose every decision is drawn from the run's
//! choices.

use std::cell::{Cell, RefCell};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

use simcore::chooser::Chooser;
use tower_lsp::Server;

use crate::handlers::SessionEngine;
use crate::methods::{build_service, MethodInfo, Pack};
use crate::peer::*;
use crate::pipes::{InPipe, OutPipe};
use crate::runner::Outcome;
use crate::world::*;

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let msg = info
                .payload()
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            let at = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|p| {
                let mut p = p.borrow_mut();
                if p.is_none() {
                    *p = Some(format!("{msg}{at}"));
                }
            });
        } else {
            old(info);
        }
    }));
}
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    QUIET.with(|q| q.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(false));
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

pub const ALL: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15",
    "C16", "C17", "C18", "C20", "C21", "C22", "C26",
];

pub struct Task {
    pub fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    pub flag: Arc<TaskFlag>,
    pub waker: Waker,
}

impl Task {
    pub fn new(fut: Pin<Box<dyn Future<Output = ()>>>) -> Self {
        let flag = Arc::new(TaskFlag { woken: AtomicBool::new(true) });
        Task { fut: Some(fut), waker: Waker::from(flag.clone()), flag }
    }
    pub fn runnable(&self) -> bool {
        self.fut.is_some() && self.flag.woken.load(Ordering::Relaxed)
    }
}

struct Ex {
    tasks: Vec<Task>,
    dead_polls: u32,
    stop: bool,
    harness: Option<String>,
}

impl Ex {
    fn woken(&self) -> Vec<usize> {
        (0..self.tasks.len()).filter(|&i| self.tasks[i].runnable()).collect()
    }

    fn poll(&mut self, i: usize) {
        let t = &mut self.tasks[i];
        let Some(fut) = t.fut.as_mut() else { return };
        t.flag.woken.store(false, Ordering::Relaxed);
        let before = w(|w| {
            w.poll_no += 1;
            w.fp.add(&[b'P', i as u8]);
            if let Some(tr) = &mut w.trace {
                tr.push(format!("            -- poll {}", if i == 0 { "server".to_string() } else { format!("background task {}", i - 1) }));
            }
            w.seq
        });
        let mut cx = Context::from_waker(&t.waker);
        let r = guarded(|| fut.as_mut().poll(&mut cx));
        match r {
            Ok(Poll::Pending) => {}
            Ok(Poll::Ready(())) => {
                let t = self.tasks[i].fut.take();
                if let Err(p) = guarded(|| drop(t)) {
                    self.panicked(p);
                }
                if i == 0 {
                    w(|w| {
                        let s = w.ev(b'D', 0, || "serve() returns".into());
                        w.serve_done = Some(s);
                        if w.in_end_seq.is_none() && !w.exit_read() && w.out_failed.is_none() {
                            w.viol(&["C12", "C20", "C15", "C18", "C13"], "serve() returned although the input has not ended and exit was not received".into());
                        }
                    });
                }
            }
            Err(p) => self.panicked(p),
        }
        let (spawned, after) = w(|w| (std::mem::take(&mut w.spawned), w.seq));
        for f in spawned {
            self.tasks.push(Task::new(f));
        }
        if after == before {
            self.dead_polls += 1;
            if self.dead_polls > 3000 {
                self.stop = true;
                w(|w| w.viol(&["C20", "C12", "C13"], "the server spins: thousands of polls without any progress".into()));
            }
        } else {
            self.dead_polls = 0;
        }
    }

    fn panicked(&mut self, p: String) {
        self.stop = true;
        if p.contains("harness:") {
            self.harness = Some(p);
        } else {
            w(|w| w.viol(ALL, format!("panic: {p}")));
        }
    }

    /// Polls woken tasks in random order until none is left.
    fn run_idle(&mut self) {
        let mut n = 0;
        while !self.stop {
            let wk = self.woken();
            if wk.is_empty() {
                break;
            }
            let k = w(|w| w.ch.below(wk.len() as u32)) as usize;
            self.poll(wk[k]);
            n += 1;
            if n > 20_000 {
                self.stop = true;
                w(|w| w.viol(&["C20", "C12"], "the server does not become idle".into()));
            }
        }
    }

    /// The future returned by serve() is dropped.
    fn tear_down(&mut self) {
        let Some(fut) = self.tasks[0].fut.take() else { return };
        w(|w| {
            w.fault("serve_dropped");
            if w.active > 0 {
                w.probe("dropped_with_handlers_running");
            }
            if w.bg_count > w.bg_done {
                w.probe("dropped_with_background_tasks_running");
            }
            let s = w.ev(b'D', 1, || "serve() is dropped".into());
            w.serve_done = Some(s);
            w.torn_down = true;
            w.in_closed = true;
            w.wire.clear();
        });
        if let Err(p) = guarded(|| drop(fut)) {
            self.panicked(p);
        }
    }

    fn idle_check(&mut self) {
        if !self.stop && self.woken().is_empty() {
            w(|w| w.on_idle());
        }
    }
}

pub fn run(focus: &'static str, ch: Chooser, trace: bool, table: &'static [MethodInfo]) -> Outcome {
    let mut ch = ch;
    let cfg = Cfg::draw(&mut ch, focus);
    let level = cfg.level;
    let max_msgs = cfg.max_msgs;
    let ws = cfg.wsched;
    let stalls = cfg.stalls;
    let end_kind = ch.weighted(&cfg.ends);
    let end_after = match end_kind {
        0 => u32::MAX,
        7 => ch.below(max_msgs + 1),
        _ => ch.below(max_msgs) + 1,
    };
    let chunk = cfg.chunk;
    let pack = cfg.pack;
    let mut world = World::new(ch, cfg, table, trace);
    if let Some(t) = &mut world.trace {
        t.push(format!("      {:?} end_kind={end_kind} end_after={end_after}", world.cfg));
    }
    install(world);

    let mut ex = Ex { tasks: vec![], dead_polls: 0, stop: false, harness: None };
    // Held by the user's server value.
    let value = Arc::new(SessionEngine);
    let engine = value.clone();
    let built = guarded(|| {
        let (service, socket) = build_service(engine, pack);
        let mut server = Server::new(InPipe, OutPipe, socket);
        if let Some(n) = level {
            server = server.concurrency_level(n);
        }
        let fut: Pin<Box<dyn Future<Output = ()>>> = Box::pin(server.serve(service));
        fut
    });
    match built {
        Ok(f) => ex.tasks.push(Task::new(f)),
        Err(p) => ex.panicked(p),
    }

    let mut ended = false;
    let mut after_end = 0;
    let mut steps = 0u64;
    let mut last_idle = 0;
    // Chaos phase.
    while !ex.stop && steps < 6000 {
        steps += 1;
        let wk = ex.woken();
        if wk.is_empty() {
            let s = w(|w| w.seq);
            if s != last_idle {
                ex.idle_check();
                last_idle = w(|w| w.seq);
            }
        }
        let serve_done = w(|w| w.serve_done.is_some());
        if serve_done {
            break;
        }
        let (gates, replies, can_send, can_deliver, sent) = w(|w| {
            (
                w.gates.iter().enumerate().filter(|(_, g)| !g.open && !g.dead && g.waker.is_some()).map(|(i, _)| i).collect::<Vec<_>>(),
                if w.in_closed { vec![] } else { (0..w.sreqs.len()).filter(|&i| w.sreqs[i].reply.is_none()).collect::<Vec<_>>() },
                !w.in_closed && w.sent_count < max_msgs && (!ended || after_end > 0),
                !w.wire.is_empty(),
                w.sent_count,
            )
        });
        let end_now = !ended && end_kind != 0 && sent >= end_after;
        let wt = [
            if wk.is_empty() { 0 } else { ws[0] },
            if wk.is_empty() { 0 } else { ws[1] },
            if can_send { ws[2] } else { 0 },
            if can_deliver { ws[3] } else { 0 },
            if gates.is_empty() { 0 } else { ws[4] },
            if replies.is_empty() { 0 } else { ws[5] },
            if stalls && (can_send || !wk.is_empty()) { ws[6] } else { 0 },
            if end_now { 10 } else { 0 },
            if ws[7] > 0 && !wk.is_empty() { ws[7] } else { 0 },
        ];
        if wt.iter().all(|&x| x == 0) {
            break;
        }
        match w(|w| w.ch.weighted(&wt)) {
            0 => {
                let k = w(|w| w.ch.below(wk.len() as u32)) as usize;
                ex.poll(wk[k]);
            }
            1 => ex.run_idle(),
            2 => {
                if ended {
                    after_end -= 1;
                }
                w(|w| w.peer_send())
            }
            3 => w(|w| {
                let n = w.wire.len();
                let n = match chunk {
                    0 => n,
                    c => match w.ch.below(4) {
                        0 => n,
                        1 => 1 + w.ch.below(c.min(n as u32)) as usize,
                        2 => 1 + w.ch.below(n as u32) as usize,
                        // Up to the end of the next message, or just short of it.
                        _ => {
                            let end = w.msgs.get(w.next_avail).map_or(n as u64, |m| m.end_off - w.deliv_off) as usize;
                            if end > 1 && w.ch.chance(30, 100) { end - 1 } else { end.max(1) }
                        }
                    },
                };
                if n < w.wire.len() {
                    w.fault("input_fragmented");
                }
                w.deliver(n)
            }),
            4 => {
                let k = w(|w| w.ch.below(gates.len() as u32)) as usize;
                open_gate(gates[k]);
            }
            5 => w(|w| {
                let k = w.ch.below(replies.len() as u32) as usize;
                if k > 0 {
                    w.fault("reply_reordered");
                }
                w.peer_reply(replies[k])
            }),
            6 => w(|w| w.draw_out_mode()),
            7 if end_kind == 7 => {
                ex.tear_down();
                break;
            }
            7 => {
                ended = true;
                after_end = w(|w| w.start_end(end_kind));
            }
            _ => {
                let k = w(|w| {
                    w.fault("spurious_poll");
                    w.ch.below(2)
                }) as usize;
                ex.poll(k.min(ex.tasks.len() - 1));
            }
        }
    }
    settle(&mut ex);
    // The conversation ends.
    let ended_now = w(|w| w.in_eof || w.in_err || w.exit_read() || w.serve_done.is_some());
    if !ended_now && !ex.stop {
        w(|w| {
            let k = w.ch.weighted(&[60, 20, 20]);
            match k {
                0 => {
                    w.start_end(1);
                }
                1 => {
                    w.start_end(4);
                }
                _ => {
                    w.start_end(5);
                }
            }
        });
        settle(&mut ex);
    }
    if !ex.stop {
        w(|w| {
            if w.serve_done.is_none() {
                if w.in_end_seq.is_some() || w.in_eof || w.in_err {
                    w.viol(&["C12", "C13", "C20", "C11", "C14"], "serve() does not return although the input has ended, the output works and every handler can finish".into());
                } else if w.exit_read() && w.out_failed.is_none() {
                    w.viol(&["C12", "C11", "C20"], "serve() does not return after exit without further input".into());
                }
            }
        });
        // Output failed and exit read: the end of the input must finish it in any case.
        let left = w(|w| w.serve_done.is_none() && w.in_end_seq.is_none());
        if left {
            w(|w| {
                w.start_end(1);
            });
            settle(&mut ex);
            w(|w| {
                if w.serve_done.is_none() {
                    w.viol(&["C12", "C13", "C20"], "serve() does not return when the input ends".into());
                }
            });
        }
    }
    // What is left must be droppable without incident.
    let tasks = std::mem::take(&mut ex.tasks);
    if !ex.stop {
        w(|w| {
            if w.serve_done.is_some() {
                let how = if w.torn_down { "was dropped" } else { "has returned" };
                let mut left = vec![];
                if w.active > 0 {
                    left.push(format!("{} handler(s)", w.active));
                }
                if Arc::strong_count(&value) > 1 {
                    left.push("the language server".into());
                }
                if w.pipes_dropped < 2 {
                    left.push("the input or the output".into());
                }
                if !left.is_empty() {
                    w.viol(&["C26"], format!("serve() {how}, but {} still exist(s)", left.join(", ")));
                }
            }
            if w.bg_done < w.bg_count {
                let n = w.bg_count - w.bg_done;
                w.viol(&["C11", "C12", "C14", "C26"], format!("{n} background task(s) hang on a client call after the server is gone"));
            }
            if !w.torn_down {
                w.finish_analysis();
            }
        });
    }
    if let Err(p) = guarded(|| drop(tasks)) {
        if !ex.stop {
            ex.panicked(p);
        }
    }
    let _ = guarded(|| w(|w| w.spawned.clear()));
    let world = uninstall().unwrap();
    Outcome::from_world(*world, steps, ex.harness)
}

pub fn open_gate(i: usize) {
    let wk = w(|w| {
        w.gates[i].open = true;
        w.ev(b'g', i as u64, || format!("gate {i} opens"));
        w.gates[i].waker.take()
    });
    if let Some(k) = wk {
        k.wake();
    }
}

/// Faults stop: everything is delivered, answered and read until nothing happens any more.
fn settle(ex: &mut Ex) {
    w(|w| {
        w.calm = true;
        w.out_mode = OutMode::Open;
        w.flush_debt = 0;
        w.ev(b'k', 0, || "faults stop; everything is delivered, answered and read".into());
        w.wake_out();
    });
    for _ in 0..3000 {
        if ex.stop {
            return;
        }
        let mut did = false;
        if !ex.woken().is_empty() {
            ex.run_idle();
            did = true;
        }
        ex.idle_check();
        let gates = w(|w| {
            let n = w.wire.len();
            if n > 0 {
                w.deliver(n);
                did = true;
            }
            let rep = if w.in_closed || w.exit_read() { None } else { (0..w.sreqs.len()).find(|&i| w.sreqs[i].reply.is_none()) };
            if let Some(si) = rep {
                w.peer_reply(si);
                did = true;
            }
            w.gates.iter().enumerate().filter(|(_, g)| !g.open && !g.dead && g.waker.is_some()).map(|(i, _)| i).next()
        });
        if let Some(g) = gates {
            open_gate(g);
            did = true;
        }
        if !did {
            return;
        }
    }
    w(|w| w.viol(&["C20", "C12"], "the session does not settle".into()));
}

impl World {
    fn draw_out_mode(&mut self) {
        let m = match self.ch.weighted(&[30, 20, 30]) {
            0 => OutMode::Open,
            1 => OutMode::Stalled,
            _ => OutMode::Credit(1 + self.ch.below(200)),
        };
        self.out_mode = m;
        if m != OutMode::Open {
            self.fault(if m == OutMode::Stalled { "output_stalled" } else { "output_limited" });
        }
        self.ev(b'o', 0, || format!("output becomes {m:?}"));
        if m != OutMode::Stalled {
            self.wake_out();
        }
    }

    /// Begins the end of the conversation; returns how many more messages the client may send.
    fn start_end(&mut self, kind: usize) -> u32 {
        match kind {
            1 => {
                self.fault("end_of_input");
                if !self.in_buf.is_empty() || self.active > 0 {
                    self.probe("end_of_input_with_work_in_flight");
                }
                let n = self.wire.len();
                self.deliver(n);
                self.in_closed = true;
                self.in_eof = true;
                self.ev(b'E', 0, || "input ends".into());
                self.wake_in();
                0
            }
            2 | 3 => {
                let n = self.wire.len();
                let keep = self.ch.below(n as u32 + 1) as usize;
                self.deliver(keep);
                if keep < n {
                    self.truncated = true;
                    self.fault("input_truncated");
                    self.wire.clear();
                }
                self.in_closed = true;
                if kind == 2 {
                    self.fault("end_of_input");
                    self.in_eof = true;
                } else {
                    self.fault("input_read_error");
                    self.in_err = true;
                }
                if self.active > 0 {
                    self.probe("end_of_input_with_work_in_flight");
                }
                self.ev(b'E', kind as u64, || format!("input ends ({})", if kind == 2 { "cut" } else { "read error" }));
                self.wake_in();
                0
            }
            4 => {
                self.fault("exit");
                if self.active > 0 {
                    self.probe("exit_with_handlers_running");
                }
                self.send_exit();
                self.ch.below(4)
            }
            5 => {
                self.fault("shutdown_exit");
                self.send_shutdown();
                if self.ch.chance(50, 100) {
                    let n = self.ch.below(3);
                    for _ in 0..n {
                        self.send_req(true);
                    }
                }
                self.send_exit();
                self.ch.below(4)
            }
            _ => {
                let f = [OutFault::Write, OutFault::Zero, OutFault::Flush][self.ch.below(3) as usize];
                self.out_fault = Some(f);
                self.ev(b'E', 6, || format!("output will fail: {f:?}"));
                self.wake_out();
                self.ch.below(6)
            }
        }
    }
}

impl Cfg {
    pub fn draw(ch: &mut Chooser, focus: &'static str) -> Cfg {
        let mut wmsg = [0u32; 20];
        let on = |ch: &mut Chooser, p: u32, v: u32| if ch.chance(p, 100) { v } else { 0 };
        wmsg[K_REQ] = 20;
        wmsg[K_NTF] = 12;
        wmsg[K_CUSTOM] = 25;
        wmsg[K_CNTF] = 8;
        wmsg[K_CANCEL] = on(ch, 40, 15);
        wmsg[K_DUP] = on(ch, 25, 6);
        wmsg[K_UNKNOWN] = on(ch, 25, 6);
        wmsg[K_BAD] = on(ch, 25, 8);
        wmsg[K_INIT] = on(ch, 20, 5);
        wmsg[K_INITIALIZED] = on(ch, 20, 3);
        wmsg[K_SHUTDOWN] = on(ch, 15, 4);
        wmsg[K_EXIT] = 0;
        wmsg[K_MALBODY] = on(ch, 15, 6);
        wmsg[K_MALHDR] = on(ch, 10, 4);
        wmsg[K_STRAY] = on(ch, 20, 6);
        wmsg[K_EMPTY] = on(ch, 12, 5);
        let level = match ch.weighted(&[30, 20, 20, 12, 8, 10]) {
            0 => None,
            1 => Some(1),
            2 => Some(2),
            3 => Some(3),
            4 => Some(8),
            _ => Some(4),
        };
        let busy = ch.below(4);
        let mut c = Cfg {
            focus,
            level,
            max_msgs: 4 + ch.small(0, 40),
            wmsg,
            pipelined_init: ch.chance(40, 100),
            init_never: ch.chance(3, 100),
            chunk: if ch.chance(60, 100) { [3, 20, 200][ch.below(3) as usize] } else { 0 },
            short_write: ch.chance(40, 100),
            flush_buffered: ch.chance(50, 100),
            pend_flush: ch.chance(25, 100),
            stalls: ch.chance(35, 100),
            spurious: if ch.chance(25, 100) { 15 } else { 0 },
            frame_variety: if ch.chance(40, 100) { 25 } else { 0 },
            text: if ch.chance(50, 100) { 30 } else { 0 },
            big: if ch.chance(8, 100) { 10 } else { 0 },
            giants: 0,
            io_kind: IO_KINDS[ch.below(8) as usize],
            pack: [Pack::Plain, Pack::Arc, Pack::Box, Pack::Minimal][ch.weighted(&[75, 6, 6, 8])],
            h_yield: [5, 20, 40, 10][busy as usize],
            h_gate: [0, 20, 60, 30][busy as usize],
            h_req: on(ch, 55, 25),
            h_ntf: on(ch, 50, 25),
            h_two: on(ch, 25, 8),
            h_prog: on(ch, 25, 8),
            h_spawn: on(ch, 25, 6),
            h_drop: on(ch, 20, 8),
            h_burst: on(ch, 20, 6),
            h_err: if ch.chance(40, 100) { 25 } else { 0 },
            h_steps: 1 + ch.below(5),
            init_err: if ch.chance(20, 100) { 40 } else { 0 },
            reply_err: if ch.chance(40, 100) { 25 } else { 0 },
            reply_bad: if ch.chance(25, 100) { 20 } else { 0 },
            null_ids: ch.chance(10, 100),
            methods_all: ch.chance(70, 100),
            ends: [40, 8, 6, 4, 8, 8, 4, 3],
            wsched: [30, 10, 20, 25, 10, 12, 4, 0],
            cover_calls: ch.chance(50, 100),
        };
        match ch.below(4) {
            0 => {}
            // Everything is run to idle between actions.
            1 => {
                c.wsched[0] = 5;
                c.wsched[1] = 80;
            }
            // Messages pile up before the server runs.
            2 => {
                c.wsched[0] = 4;
                c.wsched[1] = 4;
            }
            _ => {
                c.wsched[4] = 3;
                c.wsched[5] = 4;
            }
        }
        c.wsched[7] = on(ch, 15, 5);
        match focus {
            "C01" => {
                c.chunk = [2, 3, 20, 200][ch.below(4) as usize];
                c.frame_variety = 35;
                c.text = 40;
                c.wmsg[K_EMPTY] = on(ch, 50, 10);
                c.big = if ch.chance(15, 100) { 15 } else { 0 };
                c.ends[2] = 15;
            }
            "C02" => {
                c.short_write = true;
                c.stalls = ch.chance(60, 100);
                c.flush_buffered = ch.chance(70, 100);
                c.h_ntf = 25;
                c.h_burst = 10;
                c.text = 40;
                c.big = if ch.chance(15, 100) { 15 } else { 0 };
            }
            "C04" => {
                c.methods_all = true;
                c.wmsg[K_UNKNOWN] = 8;
                c.wmsg[K_BAD] = 14;
                c.init_never = ch.chance(1, 100);
                c.max_msgs = 10 + ch.below(40);
            }
            "C05" | "C06" => {
                c.h_gate = [20, 60, 30][ch.below(3) as usize];
                c.max_msgs = 8 + ch.below(40);
                c.wmsg[K_SHUTDOWN] = 0;
                c.init_never = false;
            }
            "C07" | "C22" => {
                c.wmsg[K_CANCEL] = 25;
                c.wmsg[K_DUP] = if focus == "C22" { 12 } else { on(ch, 50, 6) };
                c.h_gate = [20, 60, 30][ch.below(3) as usize];
                c.max_msgs = 6 + ch.below(36);
                c.init_never = false;
                c.wmsg[K_SHUTDOWN] = on(ch, 20, 5);
            }
            "C08" | "C09" => {
                c.pipelined_init = ch.chance(75, 100);
                c.wmsg[K_INIT] = 25;
                c.init_err = [0, 40, 70][ch.below(3) as usize];
                c.wmsg[K_CANCEL] = on(ch, 50, 10);
                c.max_msgs = 3 + ch.below(16);
                c.init_never = focus == "C08" && ch.chance(15, 100);
            }
            "C10" => {
                c.wmsg[K_SHUTDOWN] = 8;
                c.wmsg[K_INIT] = on(ch, 40, 5);
                c.wmsg[K_BAD] = on(ch, 60, 12);
                c.max_msgs = 5 + ch.below(24);
                c.init_never = false;
                c.wmsg[K_CANCEL] = on(ch, 30, 10);
            }
            "C11" => {
                c.ends = [10, 0, 0, 0, 40, 30, 0, 0];
                c.h_req = 25;
                c.h_spawn = on(ch, 50, 10);
                c.h_gate = [20, 60, 0][ch.below(3) as usize];
            }
            "C26" => {
                c.ends = [10, 5, 5, 3, 5, 5, 5, 60];
                c.h_req = on(ch, 80, 30);
                c.h_ntf = on(ch, 60, 25);
                c.h_spawn = on(ch, 80, 15);
                c.h_gate = [20, 60, 0][ch.below(3) as usize];
                c.stalls = ch.chance(60, 100);
                c.init_never = false;
            }
            "C12" => {
                c.ends = [10, 30, 20, 0, 15, 15, 0, 0];
                c.h_req = on(ch, 70, 25);
                c.h_ntf = on(ch, 70, 25);
            }
            "C13" => {
                c.ends = [4, 5, 20, 25, 5, 5, 40, 0];
            }
            "C14" | "C15" => {
                c.h_req = 40;
                c.h_two = 20;
                c.cover_calls = ch.chance(70, 100);
                c.reply_err = 15;
                c.reply_bad = 10;
                if focus == "C15" {
                    c.wmsg[K_STRAY] = 20;
                    c.wmsg[K_CANCEL] = on(ch, 60, 20);
                    c.h_drop = 15;
                }
                c.init_never = false;
            }
            "C16" => {
                c.h_req = 25;
                c.h_ntf = 25;
                c.h_prog = 10;
                c.h_spawn = on(ch, 60, 12);
                c.init_err = [0, 40][ch.below(2) as usize];
                c.wmsg[K_SHUTDOWN] = on(ch, 40, 5);
                c.cover_calls = true;
                c.ends = [20, 8, 4, 2, 30, 20, 0, 0];
            }
            "C17" => {
                c.h_ntf = 35;
                c.h_prog = 12;
                c.h_burst = 12;
                c.h_spawn = on(ch, 50, 8);
                c.stalls = ch.chance(60, 100);
                c.init_never = false;
            }
            "C18" => {
                c.wmsg[K_MALBODY] = 14;
                c.wmsg[K_MALHDR] = on(ch, 60, 10);
                c.chunk = [0, 2, 3, 20, 200][ch.below(5) as usize];
                c.init_never = false;
            }
            "C20" => {
                c.h_req = 40;
                c.h_two = 12;
                c.h_ntf = 20;
                c.wsched[5] = [3, 12][ch.below(2) as usize];
                c.max_msgs = 10 + ch.below(50);
                c.stalls = ch.chance(50, 100);
                c.init_never = false;
            }
            _ => {}
        }
        // Now and then many handlers are in progress at once: levels far above the default, or
        // no limit worth the name, and handlers that wait for each other to pile up.
        if ch.chance(1, if matches!(focus, "C05" | "C06") { 10 } else { 60 }) {
            let level = [16u32, 33, 64, 65, 100, 128, 500][ch.below(7) as usize];
            c.level = Some(level as usize);
            c.max_msgs = level.min(130) + ch.below(30);
            c.init_never = false;
            c.pipelined_init = false;
            c.wmsg[K_CUSTOM] = 120;
            c.wmsg[K_INIT] = 0;
            c.wmsg[K_SHUTDOWN] = 0;
            c.h_gate = 75;
            c.h_steps = 1;
            c.h_burst = 0;
            c.wsched[2] = 40;
            c.wsched[4] = [0, 1, 3][ch.below(3) as usize];
        }
        if ch.chance(1, if matches!(focus, "C01" | "C02") { 150 } else { 400 }) {
            c.text = c.text.max(20);
            c.giants = 2;
        }
        c
    }
}
