//! Judges the recorded history of one run.

use std::collections::HashSet;

use simsched::End;
use tower_lsp::jsonrpc::Id;

use crate::scen::Cfg;
use crate::world::*;

const NEVER: u64 = u64::MAX;

struct Times {
    /// The poll in which initialization succeeded.
    init: Option<(u64, u64)>,
    exit: (u64, u64),
    close: (u64, u64),
}

fn span(x: Option<(u64, Option<u64>)>) -> (u64, u64) {
    x.map(|(a, b)| (a, b.unwrap_or(NEVER))).unwrap_or((NEVER, NEVER))
}

fn code(c: &Call) -> Option<i64> {
    match &c.res {
        Some(Ok(Some(r))) => r.error().map(|e| e.code.code()),
        _ => None,
    }
}

pub fn judge(w: &mut World, cfg: &Cfg, end: &End, names: &[String]) {
    for p in w.panics.clone() {
        w.viol(&["C03", "C07", "C11", "C14", "C15", "C16", "C17", "C21", "C22", "C26"], format!("panic: {p}"));
    }
    if !w.panics.is_empty() {
        return;
    }
    let t = Times {
        init: w.calls.iter().filter(|c| matches!(c.kind, CallKind::Init { .. }) && matches!(&c.res, Some(Ok(Some(r))) if r.is_ok())).filter_map(|c| c.res_at).min(),
        exit: span(w.exit),
        close: span(w.close),
    };
    ids(w);
    ops(w, &t, end == &End::Done);
    replies(w, &t, cfg);
    calls(w, &t, end == &End::Done);
    if end != &End::Done {
        stuck(w, &t, end, names);
    }
}

fn ids(w: &mut World) {
    let mut seen: HashSet<i64> = HashSet::new();
    let mut dup = None;
    for &d in &w.draws {
        if !seen.insert(d) {
            dup = Some(d);
        }
    }
    for x in &w.wire {
        match (&x.id, x.op) {
            (None, _) => {}
            (Some(Id::Number(n)), Some(o)) if w.ops[o].kind == OpKind::Raw => {
                if w.ops[o].id != Some(*n) {
                    let t = format!("raw request with id {:?} went out with id {n}", w.ops[o].id);
                    w.viol(&["C14"], t);
                    return;
                }
            }
            (Some(Id::Number(n)), _) => {
                if !seen.insert(*n) {
                    dup = Some(*n);
                }
            }
            _ => {}
        }
    }
    if let Some(d) = dup {
        w.viol(&["C14"], format!("the request id {d} was issued twice"));
    }
}

fn ops(w: &mut World, t: &Times, done: bool) {
    for f in w.foreign.clone() {
        w.viol(&["C14", "C17"], format!("a message on the request stream was not sent by anybody in this form: {f}"));
    }
    let mut viols: Vec<(Vec<&'static str>, String)> = vec![];
    for (i, o) in w.ops.iter().enumerate() {
        let end = o.e.unwrap_or(NEVER);
        let own = if o.kind.request() { "C14" } else { "C17" };
        let what = format!("op {i} ({:?} of sender {})", o.kind, o.sender);
        if o.wire.len() > 1 {
            viols.push((vec![own], format!("{what} appears {} times on the request stream", o.wire.len())));
        }
        let before_init = match t.init {
            None => true,
            Some((p0, _)) => end < p0,
        };
        let after_exit = o.s > t.exit.1;
        let down = after_exit || (o.kind.gated() && before_init);
        let up = end < t.exit.0 && (!o.kind.gated() || matches!(t.init, Some((_, p1)) if p1 < o.s));
        if down && !o.wire.is_empty() {
            viols.push((vec!["C16", if after_exit { "C11" } else { "C16" }], format!("{what} is sent although the server is {}", if after_exit { "exited" } else { "not initialized" })));
        }
        if up && done && !o.dropped && t.exit.0 == NEVER && o.wire.len() != 1 {
            viols.push((vec![own, "C16"], format!("{what} completed but never appeared on the request stream")));
        }
        let Some(out) = &o.out else { continue };
        let first = o.wire.first().and_then(|&x| w.wire[x].replies.first());
        let refused = matches!(out, Out::Err { code: -32002, .. });
        if refused && (up || !o.kind.gated() || !o.wire.is_empty()) {
            viols.push((vec!["C16"], format!("{what} is refused with -32002 although the server is initialized")));
        }
        match out {
            Out::Done => {
                if o.kind.request() {
                    viols.push((vec!["C14"], format!("{what} has no result")));
                }
            }
            _ if down && o.kind == OpKind::Raw => {
                if *out != Out::Exited {
                    viols.push((vec!["C11", "C16"], format!("{what} after exit gives {out:?}")));
                }
            }
            _ if down => {
                if !refused {
                    viols.push((vec!["C16", if after_exit { "C11" } else { "C16" }], format!("{what} gives {out:?} although the server is {}", if after_exit { "exited" } else { "not initialized" })));
                }
            }
            _ if refused => {}
            Out::Exited => {
                if o.kind != OpKind::Raw || end < t.exit.0 {
                    viols.push((vec!["C14", "C11"], format!("{what} fails with ExitedError although no exit was received")));
                }
            }
            Out::Err { code: -32603, .. } => {
                let cut = t.exit.0.min(t.close.0);
                if end < cut {
                    viols.push((vec!["C14", "C15"], format!("{what} fails with -32603 although the connection is up")));
                } else if matches!(first, Some((_, Some(r1), _)) if *r1 < cut) {
                    viols.push((vec!["C14", "C11", "C12"], format!("{what} fails with -32603 although its response was taken before the connection ended")));
                }
            }
            out => {
                let ok = match (out, first) {
                    (_, None) => false,
                    (_, Some((r0, _, _))) if *r0 > end => false,
                    (Out::Ok { op, re }, Some((_, _, Rep::Ok(x)))) => *op == i as i64 && re == x,
                    (Out::Err { code, message }, Some((_, _, Rep::Err(x)))) => code == x && message == "no",
                    (Out::Err { code, .. }, Some((_, _, Rep::Wrong))) => *code == -32700,
                    _ => false,
                };
                if !ok {
                    viols.push((vec!["C14", "C15"], format!("{what} resolves with {out:?}, but the client's first response to it is {:?}", first.map(|x| x.2))));
                }
            }
        }
    }
    // Order per sender.
    let mut senders: Vec<usize> = w.ops.iter().map(|o| o.sender).collect();
    senders.sort();
    senders.dedup();
    for s in senders {
        let mut last: Option<(usize, usize)> = None;
        for (i, o) in w.ops.iter().enumerate().filter(|(_, o)| o.sender == s && o.seqd) {
            if let Some(&x) = o.wire.first() {
                if let Some((li, lx)) = last {
                    if lx > x {
                        viols.push((vec!["C17"], format!("sender {s} sent op {li} before op {i}, but they appear on the request stream the other way round")));
                    }
                }
                last = Some((i, x));
            }
        }
    }
    for (p, t) in viols {
        w.viol(&p, t);
    }
}

fn replies(w: &mut World, t: &Times, cfg: &Cfg) {
    let od = w.out_done.unwrap_or(NEVER);
    for (_, to) in w.refused_replies.clone() {
        if to < t.exit.0 && !(cfg.whole && od < to) {
            w.viol(&["C14", "C15"], "the response sink refuses a response although the server has not exited".into());
        }
    }
}

/// Was this call accepted, going by its result?
fn evidence(c: &Call) -> Option<bool> {
    if !c.runs.is_empty() {
        return Some(true);
    }
    match &c.res {
        Some(Ok(Some(r))) => match r.error().map(|e| e.code.code()) {
            Some(-32002) | Some(-32600) => Some(false),
            _ => Some(true),
        },
        Some(_) => Some(false),
        None => None,
    }
}

fn holds_ids(c: &Call) -> bool {
    matches!(c.kind, CallKind::Work | CallKind::Init { .. } | CallKind::Shutdown)
}

fn calls(w: &mut World, t: &Times, done: bool) {
    let mut viols: Vec<(Vec<&'static str>, String)> = vec![];
    let n = w.calls.len();
    let drop = |c: &Call| span(c.drop_at);
    let res = |c: &Call| c.res_at.unwrap_or((NEVER, NEVER));
    // Whether the rules force the acceptance of a call; filled in order.
    let mut must = vec![false; n];
    // When the id of call j is possibly and certainly free again, looking at calls up to `upto`.
    let release = |w: &World, j: usize, upto: usize| -> (u64, u64) {
        let c = &w.calls[j];
        let (r, d) = (res(c), drop(c));
        let mut p = r.0.min(d.0).min(t.exit.0);
        let mut s = r.1.min(d.1).min(t.exit.1);
        for k in w.calls[j + 1..upto.max(j + 1)].iter().filter(|k| k.kind == CallKind::Cancel && !k.after_exit && k.target == c.id) {
            p = p.min(k.c0);
            s = s.min(k.c1);
        }
        (p, s)
    };
    let mut succeeded = 0;
    for i in 0..n {
        let c = &w.calls[i];
        let what = format!("call {i} ({:?}, id {:?})", c.kind, c.id);
        if c.runs.len() > 1 {
            viols.push((vec!["C03", "C04"], format!("the handler of {what} ran {} times", c.runs.len())));
        }
        if c.c1 == NEVER {
            continue;
        }
        // Being called.
        if c.ready != Some(!c.after_exit) {
            viols.push((vec!["C11"], format!("poll_ready gives {:?} at {what}, {} exit", c.ready, if c.after_exit { "after" } else { "before" })));
        }
        if let Some(Ok(Some(r))) = &c.res {
            match &c.id {
                None => viols.push((vec!["C03"], format!("{what} is a notification but gets a response"))),
                Some(id) if id != r.id() => viols.push((vec!["C03", "C07", "C22"], format!("{what} gets a response with id {:?}", r.id()))),
                _ => {}
            }
        }
        if c.after_exit {
            if matches!(c.res, Some(Ok(_))) || !c.runs.is_empty() {
                viols.push((vec!["C11"], format!("{what} is made after exit and gives {:?}", c.res)));
            }
            continue;
        }
        if matches!(c.res, Some(Err(()))) {
            viols.push((vec!["C03", "C11", "C21"], format!("{what} fails with ExitedError although it was made before exit")));
            continue;
        }
        if c.id.is_some() && matches!(c.res, Some(Ok(None))) {
            viols.push((vec!["C03", "C07", "C11"], format!("{what} gets no response")));
            continue;
        }
        let down = match t.init {
            None => true,
            Some((p0, _)) => p0 > c.c1,
        };
        let up = matches!(t.init, Some((_, p1)) if p1 < c.c0);
        let cancels: Vec<(u64, u64)> = w.calls[i + 1..].iter().filter(|k| k.kind == CallKind::Cancel && !k.after_exit && k.target == c.id && k.c1 != NEVER).map(|k| (k.c0, k.c1)).collect();
        let resolved = c.res.is_some();
        let code = code(c);
        match c.kind {
            CallKind::Cancel | CallKind::Exit => {}
            CallKind::Note => {
                let can = !down && !c.after_shutdown;
                if !can && !c.runs.is_empty() {
                    viols.push((vec!["C08", "C10"], format!("{what} runs although the server does not accept it")));
                }
                if done && up && !c.after_shutdown && c.drop_at.is_none() && !(c.runs.len() == 1 && w.runs[c.runs[0]].finished.is_some()) {
                    viols.push((vec!["C04", "C12"], format!("the handler of {what} did not run to its end")));
                }
            }
            CallKind::Shutdown => {
                must[i] = up && !c.after_shutdown;
                if resolved {
                    let ok = match code {
                        None => must[i],
                        Some(-32800) => must[i] && (cancels.iter().any(|k| k.0 < res(c).1) || t.exit.0 < res(c).1),
                        Some(-32600) => c.after_shutdown,
                        _ => false,
                    };
                    if !ok {
                        viols.push((vec!["C10", "C03"], format!("{what} is answered {:?}", c.res)));
                    }
                }
            }
            CallKind::Init { fail } => {
                let others: Vec<usize> = (0..i).filter(|&j| matches!(w.calls[j].kind, CallKind::Init { .. }) && evidence(&w.calls[j]) != Some(false)).collect();
                let busy = others.iter().any(|&j| {
                    let o = &w.calls[j];
                    let sure = must[j] || evidence(o) == Some(true);
                    let ok = matches!(&o.res, Some(Ok(Some(r))) if r.is_ok());
                    sure && (ok || (res(o).0 > c.c1 && drop(o).0 > c.c1))
                });
                let free = others.iter().all(|&j| {
                    let o = &w.calls[j];
                    let ok = matches!(&o.res, Some(Ok(Some(r))) if r.is_ok());
                    !ok && res(o).1.min(drop(o).1) < c.c0
                });
                must[i] = free;
                if resolved {
                    let run_ok = c.runs.len() == 1 && w.runs[c.runs[0]].finished.is_some();
                    let ok = match code {
                        None => !busy && run_ok && !fail,
                        Some(-32602) => !busy && run_ok && fail,
                        Some(-32800) => !busy && (cancels.iter().any(|k| k.0 < res(c).1) || t.exit.0 < res(c).1),
                        Some(-32600) => !free,
                        _ => false,
                    };
                    if code.is_none() {
                        succeeded += 1;
                    }
                    if !ok {
                        viols.push((vec!["C08", "C09", "C21"], format!("{what} is answered {:?}; initialization is {}", c.res, if busy { "surely running or done" } else if free { "surely open" } else { "in an uncertain state" })));
                    }
                }
                if busy && !c.runs.is_empty() {
                    viols.push((vec!["C09"], format!("the handler of {what} runs although initialization is running or done")));
                }
            }
            CallKind::Work => {
                let can = !down && !c.after_shutdown;
                let sure = up && !c.after_shutdown;
                let mut maybe_held = false;
                let mut held = false;
                for j in 0..i {
                    let o = &w.calls[j];
                    if !holds_ids(o) || o.id != c.id || o.after_exit {
                        continue;
                    }
                    let ev = evidence(o);
                    if ev == Some(false) {
                        continue;
                    }
                    let (p, s) = release(w, j, i);
                    if s > c.c0 {
                        maybe_held = true;
                    }
                    if p > c.c1 && (must[j] || ev == Some(true)) {
                        held = true;
                    }
                }
                must[i] = sure && !maybe_held;
                if (!can || held) && !c.runs.is_empty() {
                    viols.push((vec!["C08", "C10", "C22"], format!("the handler of {what} runs although {}", if held { "its id is in use" } else { "the server does not accept it" })));
                }
                if resolved {
                    let ok = match code {
                        Some(-32002) => !up && !c.after_shutdown,
                        Some(-32600) => c.after_shutdown || (can && maybe_held),
                        Some(-32800) => can && !held && (cancels.iter().any(|k| k.0 < res(c).1) || t.exit.0 < res(c).1),
                        None => {
                            let right = matches!(&c.res, Some(Ok(Some(r))) if r.result().map_or(false, |v| v["did"] == i));
                            can && !held && right && c.runs.len() == 1 && w.runs[c.runs[0]].finished.is_some()
                        }
                        _ => false,
                    };
                    if !ok {
                        let st = if c.after_shutdown { "shut down" } else if up { "initialized" } else if down { "not initialized" } else { "being initialized" };
                        let mut p = vec!["C03", if maybe_held { "C22" } else { "C03" }];
                        if !cancels.is_empty() || code == Some(-32800) {
                            p.push("C07");
                        }
                        if code == Some(-32002) || !up {
                            p.push("C08");
                        }
                        if code == Some(-32600) {
                            p.extend(["C22", "C21"]);
                        }
                        if t.exit.0 != NEVER {
                            p.push("C11");
                        }
                        viols.push((p, format!("{what} is answered {:?}; the server is {st}, its id is {}, it was {}", c.res, if held { "in use" } else if maybe_held { "possibly in use" } else { "free" }, if cancels.is_empty() { "not cancelled" } else { "cancelled" })));
                    }
                }
            }
        }
        // Handlers of requests stop at cancellation and at exit.
        if holds_ids(&w.calls[i]) {
            for &r in &w.calls[i].runs {
                let run = &w.runs[r];
                let last = run.polls.last().copied().unwrap_or(0);
                if last > t.exit.1 {
                    viols.push((vec!["C11"], format!("the handler of {what} is resumed after exit")));
                }
                for (ki, k) in w.calls.iter().enumerate().skip(i + 1).filter(|(_, k)| k.kind == CallKind::Cancel && !k.after_exit && k.target == w.calls[i].id && k.c1 != NEVER) {
                    if last <= k.c1 {
                        continue;
                    }
                    let sole = !(0..ki).any(|j| j != i && holds_ids(&w.calls[j]) && w.calls[j].id == w.calls[i].id && evidence(&w.calls[j]) != Some(false) && release(w, j, ki).1 > k.c0);
                    if sole {
                        viols.push((vec!["C07"], format!("the handler of {what} is resumed after its cancellation (call {ki}) has been processed")));
                    }
                }
            }
        }
    }
    if succeeded > 1 {
        viols.push((vec!["C09"], format!("{succeeded} initialize requests succeeded")));
    }
    for (p, t) in viols {
        w.viol(&p, t);
    }
}

fn stuck(w: &mut World, t: &Times, end: &End, names: &[String]) {
    let mut props: Vec<&'static str> = vec![];
    let mut l = vec![];
    for (i, c) in w.calls.iter().enumerate() {
        if c.open() {
            props.push("C03");
            if let Some(id) = &c.id {
                if w.calls.iter().any(|k| k.target.as_ref() == Some(id)) {
                    props.push("C07");
                }
            }
            if t.exit.0 != NEVER {
                props.push("C11");
            }
            if w.calls.iter().any(|c| c.drop_at.is_some()) {
                props.push("C21");
            }
            l.push(format!("call {i} ({:?}, id {:?}) is not resolved", c.kind, c.id));
        }
    }
    for (i, o) in w.ops.iter().enumerate() {
        if o.e.is_none() {
            props.push(if o.kind.request() { "C14" } else { "C17" });
            if t.exit.0 != NEVER {
                props.push("C11");
            }
            if t.close.0 != NEVER {
                props.push("C12");
                props.push("C26");
            }
            if !w.faults.is_empty() {
                props.push("C15");
            }
            l.push(format!("op {i} ({:?} of sender {}) has not ended", o.kind, o.sender));
        }
    }
    if w.out_done.is_none() {
        if t.exit.0 != NEVER {
            props.push("C11");
        }
        l.push("the request stream has not ended".into());
    }
    let head = match end {
        End::Livelock(t) => format!("no end in sight (last running: {})", names[*t]),
        End::Deadlock(b) => format!("deadlock: {}", b.iter().map(|(i, why)| format!("{} {why}", names[*i])).collect::<Vec<_>>().join(", ")),
        End::Done => return,
    };
    w.viol(&props, format!("{head}; {}", l.join("; ")));
}
