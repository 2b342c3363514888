//! Oracles over the recorded history of a session.

use std::collections::BTreeMap;

use serde_json::Value;

use crate::methods::{Arity, M_INITIALIZED};
use crate::peer::id_key;
use crate::world::*;

/// What the client may get for one request.
#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    /// Nothing at all.
    Absent,
    Ok(Value),
    Err(Value),
    Code(i64),
}

impl Want {
    fn fits(&self, body: &Value) -> bool {
        match self {
            Want::Absent => false,
            Want::Ok(v) => body.get("result") == Some(v) && body.get("error").is_none(),
            Want::Err(e) => body.get("error") == Some(e),
            Want::Code(c) => body.get("error").and_then(|e| e.get("code")).and_then(|c| c.as_i64()) == Some(*c),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Sure {
    Yes,
    No,
    Maybe,
}

struct Expect {
    wants: Vec<Want>,
    props: Vec<&'static str>,
}

impl World {
    /// A client call has resolved.
    pub fn check_call_result(&mut self, i: usize) {
        let c = &self.calls[i];
        let Some((_, dp, r)) = c.done.clone() else { return };
        let now = dp == c.begin_poll;
        if self.stray_may_answer(i) {
            return;
        }
        let code = r.as_ref().err().and_then(|e| e["code"].as_i64());
        let kind = c.kind;
        let gated = !kind.exempt() && !kind.raw();
        let replied = c.wire.and_then(|s| self.sreqs[s].reply.as_ref()).filter(|rp| {
            self.msgs[rp.msg].read_seq.is_some() && self.exit_msg.map_or(true, |e| rp.msg < e || self.msgs[e].read_seq.is_none())
        });
        let mut bad: Vec<(&[&'static str], String)> = vec![];
        if gated && !c.init_then {
            if code != Some(-32002) || !now {
                bad.push((&["C16"], format!("client request {i} made before initialization resolved to {r:?} (at once: {now})")));
            }
        } else if c.exit_surely_then {
            if r.is_ok() || !now || (gated && code != Some(-32002)) {
                bad.push((&["C16", "C11"], format!("client request {i} made after exit resolved to {r:?} (at once: {now})")));
            }
        } else if let (Some(rp), false) = (replied, c.exit_maybe_then) {
            let fits = match (&rp.expect, &r) {
                (Ok(a), Ok(b)) => a == b,
                (Err(Some(a)), Err(b)) => a == b,
                (Err(None), Err(b)) => b["code"] == -32700,
                _ => false,
            };
            if !fits && !(self.out_failed.is_some() && r.is_err()) {
                bad.push((&["C14", "C19", "C15"], format!("client request {i} resolved to {r:?}, the client replied {:?}", rp.expect)));
            }
        } else if r.is_ok() && replied.is_none() {
            bad.push((&["C14", "C15", "C19"], format!("client request {i} resolved to {r:?} although the client has not replied")));
        } else if r.is_err()
            && self.in_end_seq.is_none()
            && !self.exit_read()
            && self.out_failed.is_none()
            && self.serve_done.is_none()
        {
            bad.push((&["C14", "C15", "C16"], format!("client request {i} failed with {r:?} while the connection is up and the client has not replied")));
        }
        for (p, t) in bad {
            self.viol(p, t);
        }
    }

    /// Whether client request `i` might have been answered, rightly, by a response sent before the request
    /// was seen, because it cannot be told which of the two came first.
    fn stray_may_answer(&self, i: usize) -> bool {
        let c = &self.calls[i];
        let id = c.wire.map(|s| crate::peer::id_key(&self.sreqs[s].id));
        self.strays_ahead.iter().any(|(sid, m)| {
            id.as_ref().map_or(true, |id| id == sid)
                && match self.msgs[*m].read_seq {
                    _ if self.direct => self.msgs[*m].read_seq.map_or(true, |r| r > c.begin),
                    Some(r) => !self.idles.iter().any(|&s| r < s && s < c.begin),
                    None => true,
                }
        })
    }

    fn level_free(&self) -> bool {
        self.active < self.level()
    }

    /// Nothing is runnable: everything that was possible must have happened.
    pub fn on_idle(&mut self) {
        if self.serve_done.is_some() || self.out_failed.is_some() {
            if self.serve_done.is_some() {
                let s = self.seq;
                self.idles.push(s + 1);
                self.seq += 1;
            }
            return;
        }
        if self.out_blocked {
            self.probe("idle_with_output_blocked");
            return;
        }
        self.seq += 1;
        let s = self.seq;
        if let Some(t) = &mut self.trace {
            t.push(format!("{s:>5} -- idle --"));
        }
        let mut bad: Vec<(Vec<&'static str>, String)> = vec![];
        if !self.in_buf.is_empty() && !self.exit_read() {
            bad.push((vec!["C01", "C20", "C18"], format!("idle with {} readable bytes left unread", self.in_buf.len())));
        }
        if !self.out_pend.is_empty() {
            bad.push((vec!["C02", "C20"], format!("idle with {} bytes written but not flushed", self.out_pend.len())));
        }
        if !self.out_vis.is_empty() && !self.out_broken {
            bad.push((vec!["C02"], format!("idle with an incomplete frame of {} bytes in the output", self.out_vis.len())));
        }
        let exit = self.exit_read();
        let ending = self.in_end_seq.is_some();
        if !exit {
            bad.extend(self.idle_requests());
            bad.extend(self.idle_cancels());
            if !self.calm {
                self.probe(if self.level_free() { "idle_with_free_slots" } else { "idle_saturated" });
            }
        }
        if !exit && !ending {
            bad.extend(self.idle_client());
        }
        if exit {
            bad.extend(self.idle_exited());
        }
        for (p, t) in bad {
            self.viol(&p, t);
        }
        self.idles.push(s);
    }

    pub fn idle_exited(&self) -> Vec<(Vec<&'static str>, String)> {
        let mut bad = vec![];
        for (i, v) in self.invs.iter().enumerate() {
            if v.end == End::Running && v.msg.is_some_and(|m| self.msgs[m].id.is_some()) {
                bad.push((vec!["C11"], format!("request handler {i} ({}) is still alive after exit", v.method)));
            }
        }
        bad
    }

    /// Client traffic that must have got through by now.
    pub fn idle_client(&self) -> Vec<(Vec<&'static str>, String)> {
        let mut bad: Vec<(Vec<&'static str>, String)> = vec![];
        for (i, c) in self.calls.iter().enumerate() {
            if c.done.is_none() && !c.dropped && c.wire.is_none() {
                bad.push((vec!["C17", "C14", "C20"], format!("client request {i} {:?} is not delivered although the output is idle", c.kind)));
            }
            if c.done.is_none() && !c.dropped {
                if let Some(rp) = c.wire.and_then(|s| self.sreqs[s].reply.as_ref()) {
                    if self.msgs[rp.msg].read_seq.is_some() {
                        bad.push((vec!["C14", "C20", "C15"], format!("client request {i} {:?} does not resolve although its reply was received", c.kind)));
                    }
                }
            }
        }
        for (i, n) in self.ntfs.iter().enumerate() {
            if n.dropped {
                continue;
            }
            if n.done.is_none() {
                bad.push((vec!["C17", "C20"], format!("sending client notification {i} {:?} does not complete although the output is idle", n.kind)));
            } else if n.wire.is_empty() && (n.init_then || n.kind.exempt()) {
                bad.push((vec!["C17", "C02", "C20", "C16"], format!("client notification {i} {:?} was sent but not delivered", n.kind)));
            }
        }
        bad
    }

    fn is_processed(&self, i: usize) -> bool {
        self.msgs[i].read_seq.is_some() && self.exit_msg.map_or(true, |e| i < e || self.msgs[e].read_seq.is_none())
    }

    /// Requests whose answer is due but not visible; handlers due but not started.
    fn idle_requests(&self) -> Vec<(Vec<&'static str>, String)> {
        let mut out = vec![];
        let free = self.level_free();
        for i in 0..self.msgs.len() {
            let m = &self.msgs[i];
            if !self.is_processed(i) {
                continue;
            }
            match m.k {
                K::Req | K::BadReq(_) | K::Unknown | K::CancelWithId | K::Init | K::Shutdown => {
                    if m.seen_resp.is_some() || (m.id == Some(Value::Null) && self.msgs.iter().any(|o| matches!(o.k, K::MalBody(_) | K::MalHeader))) {
                        continue;
                    }
                    let ended = m.invs.first().map(|&v| self.invs[v].end != End::Running);
                    match ended {
                        Some(true) => {
                            let mut l = vec!["C02", "C03", "C20"];
                            l.extend(self.ctx(i));
                            out.push((l, format!("handler of request #{i} {} id={:?} has ended but its response is not delivered", m.method, m.id)));
                        }
                        None if free && !(m.k == K::Shutdown && self.invs.iter().any(|v| v.method == "shutdown" && v.end == End::Running)) => {
                            let mut l = vec!["C05", "C03", "C20", "C01"];
                            l.extend(self.ctx(i));
                            out.push((l, format!("request #{i} {} id={:?} is neither answered nor started although {} of {} slots are in use", m.method, m.id, self.active, self.level())));
                        }
                        _ => {}
                    }
                }
                K::MalBody(_) => {}
                K::Ntf => {
                    if free && m.invs.is_empty() && self.ntf_due(i) == Sure::Yes && self.table[m.mi].arity == Arity::Params && m.mi != M_INITIALIZED {
                        let mut l = vec!["C05", "C20", "C01", "C04"];
                        l.extend(self.ctx(i));
                        out.push((l, format!("notification #{i} {} is not started although {} of {} slots are in use", m.method, self.active, self.level())));
                    }
                }
                _ => {}
            }
        }
        // Errors for malformed bodies.
        if !self.msgs.iter().any(|m| m.k == K::MalHeader) {
            let due = (0..self.msgs.len()).filter(|&i| matches!(self.msgs[i].k, K::MalBody(_)) && self.is_processed(i)).count();
            let nullreq = self.msgs.iter().filter(|m| m.id == Some(Value::Null)).count();
            let got = self.resps.iter().filter(|r| r.id.is_null()).count();
            if got < due {
                out.push((vec!["C18", "C02"], format!("{due} malformed bodies received but only {got} null-id errors delivered")));
            }
            if got > due + nullreq {
                out.push((vec!["C18", "C03", "C13"], format!("{due} malformed bodies received but {got} null-id responses delivered")));
            }
        }
        out
    }

    /// Cancellations that must have had their effect by now.
    fn idle_cancels(&self) -> Vec<(Vec<&'static str>, String)> {
        let mut out = vec![];
        for k in 0..self.msgs.len() {
            if self.msgs[k].k != K::Cancel || !self.is_processed(k) {
                continue;
            }
            let t = self.msgs[k].target.as_ref().unwrap();
            let same: Vec<usize> = (0..k).filter(|&j| self.msgs[j].id.as_ref() == Some(t) && self.msgs[j].k != K::CancelWithId && self.msgs[j].k != K::Unknown).collect();
            let Some(&i) = same.last() else { continue };
            if same.iter().any(|&j| j != i && self.msgs[j].seen_resp.map_or(true, |s| s > self.msgs[i].read_seq.unwrap_or(0))) {
                continue;
            }
            if let Some(&v) = self.msgs[i].invs.first() {
                if self.invs[v].end == End::Running && self.invs[v].start < self.msgs[k].read_seq.unwrap() {
                    out.push((vec!["C07"], format!("request #{i} id={t} was cancelled by #{k} but its handler is still alive")));
                }
            }
        }
        out
    }

    /// Properties that speak about the situation message `i` is in.
    fn ctx(&self, i: usize) -> Vec<&'static str> {
        let m = &self.msgs[i];
        let mut l = vec![];
        if let Some(id) = &m.id {
            let same = self.msgs.iter().filter(|o| o.id.as_ref() == Some(id)).count();
            if same > 1 {
                l.push("C22");
            }
            if self.msgs.iter().any(|o| o.target.as_ref() == Some(id)) {
                l.push("C07");
                if same > 1 {
                    l.push("C22");
                }
            }
        }
        match m.k {
            K::Init => l.extend(["C08", "C09"]),
            K::Shutdown => l.push("C10"),
            K::BadReq(_) | K::Unknown | K::CancelWithId => l.push("C04"),
            _ => {}
        }
        if self.msgs[..i].iter().any(|o| matches!(o.k, K::MalBody(_) | K::MalHeader)) {
            l.push("C18");
        }
        if self.msgs[..i].iter().any(|o| o.k == K::Empty || o.special_frame) {
            l.push("C01");
        }
        if self.msgs[..i].iter().any(|o| o.k == K::Stray) || self.sreqs.iter().any(|s| s.reply.is_some() && s.call.is_some_and(|c| self.calls[c].dropped)) {
            l.push("C15");
        }
        if self.msgs[..i].iter().any(|o| o.k == K::Shutdown) {
            l.push("C10");
        }
        if self.msgs[..i].iter().any(|o| o.k == K::Init && o.seen_resp.is_some()) && self.init_ok.is_none() {
            l.push("C08");
        }
        if self.in_end_seq.is_some() {
            l.push("C12");
        }
        if self.in_err || self.truncated || self.out_failed.is_some() {
            l.push("C13");
        }
        if self.exit_read() {
            l.push("C11");
        }
        l
    }

    /// Upper bounds for when each message was acted on.
    fn his(&self) -> Vec<u64> {
        let n = self.msgs.len();
        let mut hi = vec![u64::MAX; n];
        let mut next = u64::MAX;
        for i in (0..n).rev() {
            let m = &self.msgs[i];
            let mut h = next;
            if let Some(r) = m.read_seq {
                let k = self.idles.partition_point(|&x| x <= r);
                if let Some(&x) = self.idles.get(k) {
                    h = h.min(x);
                }
                // Tokenless attribution may be too early by one message; use it only when sure.
                if let Some(&v) = m.invs.first() {
                    if self.table[self.msgs[i].mi].arity == Arity::Params && m.mi != M_INITIALIZED {
                        h = h.min(self.invs[v].start);
                    }
                }
            }
            hi[i] = h;
            next = h;
        }
        hi
    }

    fn init_at(&self, i: usize, hi: u64) -> Sure {
        let lo = self.msgs[i].read_seq.unwrap_or(u64::MAX);
        match self.init_ok {
            None => Sure::No,
            Some(t) if t <= lo => Sure::Yes,
            Some(t) if t >= hi => Sure::No,
            Some(_) => Sure::Maybe,
        }
    }

    /// Was shutdown accepted before message `i`?
    fn sd_at(&self, i: usize, his: &dyn Fn(usize) -> u64) -> Sure {
        let mut r = Sure::No;
        for j in 0..i {
            if self.msgs[j].k != K::Shutdown || self.msgs[j].read_seq.is_none() {
                continue;
            }
            match self.init_at(j, his(j)) {
                Sure::No => {}
                Sure::Yes => return Sure::Yes,
                Sure::Maybe => {
                    // The answer tells.
                    let of_id = self.resps.iter().filter(|x| Some(&x.id) == self.msgs[j].id.as_ref());
                    let (refused, other): (Vec<&Resp>, Vec<&Resp>) =
                        of_id.partition(|x| x.body["error"]["code"] == -32002);
                    match (refused.is_empty(), other.is_empty()) {
                        (false, true) => {}
                        (true, false) => return Sure::Yes,
                        _ => r = Sure::Maybe,
                    }
                }
            }
        }
        r
    }

    /// At an idle moment: must the handler of notification `i` have been queued?
    fn ntf_due(&self, i: usize) -> Sure {
        let now = self.seq;
        let init = self.init_at(i, now);
        let sd = self.sd_at(i, &|_| now);
        match (init, sd) {
            (Sure::Yes, Sure::No) => Sure::Yes,
            (Sure::No, _) | (_, Sure::Yes) => Sure::No,
            _ => Sure::Maybe,
        }
    }

    pub fn finish_analysis(&mut self) {
        let his = self.his();
        let exit = self.exit_msg.filter(|&e| self.msgs[e].read_seq.is_some());
        let mut groups: BTreeMap<String, Vec<(usize, Expect)>> = BTreeMap::new();
        let mut bad: Vec<(Vec<&'static str>, String)> = vec![];
        let mut tokenless: BTreeMap<usize, (usize, usize)> = BTreeMap::new();
        for i in 0..self.msgs.len() {
            let m = &self.msgs[i];
            if m.read_seq.is_none() {
                continue;
            }
            let after_exit = exit.is_some_and(|e| i > e);
            match m.k {
                K::Req | K::BadReq(_) | K::Unknown | K::CancelWithId | K::Init | K::Shutdown => {
                    let e = if after_exit {
                        Expect { wants: vec![Want::Absent], props: vec!["C11"] }
                    } else {
                        self.expect_request(i, &his)
                    };
                    let key = id_key(m.id.as_ref().unwrap());
                    groups.entry(key).or_default().push((i, e));
                }
                K::MalBody(c) => {
                    let mut wants = vec![Want::Code(c)];
                    if after_exit {
                        wants = vec![Want::Absent];
                    } else if exit.is_some() || self.out_failed.is_some() {
                        // The answer may still have been queued behind others at exit: it is owed.
                        if self.out_failed.is_some() {
                            wants.push(Want::Absent);
                        }
                    }
                    groups.entry("null".into()).or_default().push((i, Expect { wants, props: vec!["C18"] }));
                }
                K::Ntf => {
                    let tok = self.table[m.mi].arity == Arity::Params && m.mi != M_INITIALIZED;
                    let init = self.init_at(i, his[i]);
                    let sd = self.sd_at(i, &|j| his[j]);
                    let (min, max) = match (init, sd) {
                        _ if after_exit => (0, 0),
                        (Sure::No, _) | (_, Sure::Yes) => (0, 1),
                        (Sure::Yes, Sure::No) => (1, 1),
                        _ => (0, 1),
                    };
                    let refused = !after_exit && (init == Sure::No || sd == Sure::Yes);
                    let min = if exit.is_some() || self.out_failed.is_some() { 0 } else { min };
                    if !tok {
                        let e = tokenless.entry(m.mi).or_default();
                        e.0 += min;
                        e.1 += if refused { 0 } else { max };
                        continue;
                    }
                    if refused && !m.invs.is_empty() {
                        bad.push((
                            if sd == Sure::Yes { vec!["C10"] } else { vec!["C08"] },
                            format!("notification #{i} {} was handled although the server was not ready for it", m.method),
                        ));
                    }
                    if !refused && m.invs.len() < min {
                        let mut l = vec!["C01", "C04", "C20", "C05"];
                        l.extend(self.ctx(i));
                        bad.push((l, format!("notification #{i} {} was never handled", m.method)));
                    }
                    if let Some(&v) = m.invs.first() {
                        match self.invs[v].end {
                            End::Finished(_) => {}
                            _ if self.out_failed.is_some() => {}
                            _ => {
                                let mut l = vec!["C12", "C07", "C20"];
                                l.extend(self.ctx(i));
                                bad.push((l, format!("handler of notification #{i} {} did not run to completion", m.method)));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        for (mi, (min, max)) in tokenless {
            let rpc = self.table[mi].rpc;
            let n = self.invs.iter().filter(|v| v.method == rpc).count();
            if n < min || n > max {
                bad.push((
                    if n < min { vec!["C01", "C04", "C20"] } else { vec!["C04", "C08", "C10"] },
                    format!("{rpc} was handled {n} times, expected {min}..={max}"),
                ));
            }
        }
        bad.extend(self.match_responses(groups));
        bad.extend(self.cancel_effects(&his));
        bad.extend(self.client_traffic());
        bad.extend(self.header_errors(exit));
        for (p, t) in bad {
            self.viol(&p, t);
        }
    }

    fn later_cancel(&self, i: usize) -> bool {
        let id = self.msgs[i].id.as_ref();
        ((i + 1)..self.msgs.len()).any(|k| self.msgs[k].k == K::Cancel && self.msgs[k].target.as_ref() == id && self.is_processed(k))
    }

    /// When message `j` may have held its id: from reception to this (inclusive bounds of the end).
    fn use_end(&self, j: usize) -> (u64, u64) {
        let m = &self.msgs[j];
        if let Some(&v) = m.invs.first() {
            if let (End::Finished(_), Some(s)) = (&self.invs[v].end, self.invs[v].end_seq) {
                return (s, s);
            }
        }
        // Cancelled, refused or never run: some time up to its answer.
        (0, m.seen_resp.unwrap_or(u64::MAX))
    }

    fn expect_request(&self, i: usize, his: &[u64]) -> Expect {
        let m = &self.msgs[i];
        let lo = m.read_seq.unwrap();
        let hi = his[i];
        let exit = self.exit_read();
        let failed = self.out_failed.is_some();
        let mut wants = vec![];
        let mut props: Vec<&'static str> = vec!["C03"];
        let cancelled = self.later_cancel(i);
        let init = self.init_at(i, hi);
        let sd = self.sd_at(i, &|j| his[j]);
        let mut normal = false;
        match m.k {
            K::Unknown => {
                wants.push(Want::Code(-32601));
                props.push("C04");
            }
            K::CancelWithId => {
                wants.push(Want::Code(-32600));
                props.push("C04");
            }
            K::Init => {
                // Is another initialize running, or did one succeed?
                let mut busy = Sure::No;
                if sd == Sure::Yes {
                    busy = Sure::Yes;
                }
                match init {
                    Sure::Yes => busy = Sure::Yes,
                    Sure::Maybe => busy = Sure::Maybe,
                    Sure::No => {}
                }
                if init == Sure::No {
                    for j in 0..i {
                        let o = &self.msgs[j];
                        if o.k != K::Init || o.read_seq.is_none() {
                            continue;
                        }
                        // Refused ones never hold the state.
                        let mut of_id = self.resps.iter().filter(|r| Some(&r.id) == o.id.as_ref()).peekable();
                        let refused = o.invs.is_empty()
                            && of_id.peek().is_some()
                            && of_id.all(|r| r.body["error"]["code"] == -32600);
                        if refused {
                            continue;
                        }
                        let (elo, ehi) = match o.invs.first().map(|&v| &self.invs[v]) {
                            Some(v) if v.end_seq.is_some() => (v.end_seq.unwrap(), v.end_seq.unwrap()),
                            Some(_) => (u64::MAX, u64::MAX),
                            None => (0, o.seen_resp.unwrap_or(u64::MAX)),
                        };
                        if ehi <= lo {
                            continue;
                        }
                        if elo >= hi && o.read_seq.is_some() && busy != Sure::Yes {
                            busy = Sure::Yes;
                        } else if busy == Sure::No {
                            busy = Sure::Maybe;
                        }
                    }
                }
                props.extend(["C08", "C09"]);
                if busy != Sure::No {
                    wants.push(Want::Code(-32600));
                }
                if busy != Sure::Yes {
                    normal = true;
                }
            }
            _ => {
                if m.k == K::Shutdown {
                    props.push("C10");
                }
                if init != Sure::Yes {
                    wants.push(Want::Code(-32002));
                    props.push("C08");
                }
                if sd != Sure::No && init != Sure::No {
                    wants.push(Want::Code(-32600));
                    props.push("C10");
                }
                if init != Sure::No && sd != Sure::Yes {
                    normal = true;
                }
                if init == Sure::No && self.init_ok.is_none() {
                    props.push("C08");
                }
            }
        }
        if normal {
            // Is the id in use?
            let mut inuse = Sure::No;
            if !matches!(m.k, K::Init) {
                for j in 0..i {
                    let o = &self.msgs[j];
                    if o.id != m.id || o.read_seq.is_none() || matches!(o.k, K::Unknown | K::CancelWithId) {
                        continue;
                    }
                    let (elo, ehi) = self.use_end(j);
                    let cancelled_before = ((j + 1)..i).any(|k| self.msgs[k].k == K::Cancel && self.msgs[k].target == m.id);
                    if ehi <= lo {
                        continue;
                    }
                    // It certainly registered its id only if it was certainly accepted itself.
                    let oinit = self.init_at(j, his[j]);
                    if elo >= hi && !cancelled_before && oinit == Sure::Yes {
                        inuse = Sure::Yes;
                    } else if inuse == Sure::No {
                        inuse = Sure::Maybe;
                    }
                }
            }
            if inuse != Sure::No {
                props.push("C22");
                wants.push(Want::Code(-32600));
            }
            if inuse != Sure::Yes {
                match m.k {
                    K::BadReq(c) => {
                        wants.push(Want::Code(c));
                        props.push("C04");
                        if cancelled || exit {
                            wants.push(Want::Code(-32800));
                        }
                    }
                    _ => match m.invs.first().map(|&v| (&self.invs[v], v)) {
                        None => {
                            if cancelled || exit {
                                wants.push(Want::Code(-32800));
                            }
                            props.extend(["C01", "C20", "C12", "C05"]);
                        }
                        Some((v, _)) => match &v.end {
                            End::Finished(Ok(_)) if v.method == "custom/unserializable" => {
                                wants.push(Want::Code(-32603));
                                props.push("C04");
                            }
                            End::Finished(Ok(x)) => {
                                wants.push(Want::Ok(x.clone()));
                                props.extend(["C04", "C02", "C20"]);
                            }
                            End::Finished(Err(x)) => {
                                wants.push(Want::Err(x.clone()));
                                props.extend(["C04", "C02", "C20"]);
                            }
                            End::Dropped => {
                                if cancelled || exit {
                                    wants.push(Want::Code(-32800));
                                }
                                props.extend(["C07", "C12"]);
                                if exit {
                                    props.push("C11");
                                }
                            }
                            End::Running => {
                                props.extend(["C12", "C20"]);
                            }
                        },
                    },
                }
            }
        } else if !m.invs.is_empty() && m.k != K::Shutdown && self.table[m.mi].arity == Arity::Params {
            // Handled although it had to be refused: no outcome is right.
            wants.clear();
            if init == Sure::No {
                props.push("C08");
            }
            if sd == Sure::Yes {
                props.push("C10");
            }
        }
        if failed {
            wants.push(Want::Absent);
        }
        props.extend(self.ctx(i));
        Expect { wants, props }
    }

    fn match_responses(&self, groups: BTreeMap<String, Vec<(usize, Expect)>>) -> Vec<(Vec<&'static str>, String)> {
        let mut out = vec![];
        let mut by_id: BTreeMap<String, Vec<usize>> = BTreeMap::new();
        for (r, x) in self.resps.iter().enumerate() {
            by_id.entry(id_key(&x.id)).or_default().push(r);
        }
        for (key, ms) in &groups {
            let rs = by_id.remove(key).unwrap_or_default();
            let header_slack = key == "null" && self.msgs.iter().any(|m| m.k == K::MalHeader);
            let mut used = vec![false; rs.len()];
            if !self.assign(ms, 0, &rs, &mut used, header_slack) {
                let mut props: Vec<&'static str> = vec![];
                // Blame the messages that cannot be satisfied on their own, if any.
                let mut blamed: Vec<&(usize, Expect)> = ms
                    .iter()
                    .filter(|(i, e)| {
                        !e.wants.contains(&Want::Absent)
                            && !rs.iter().any(|&r| self.resps[r].seq > self.msgs[*i].read_seq.unwrap() && e.wants.iter().any(|w| w.fits(&self.resps[r].body)))
                    })
                    .collect();
                if blamed.is_empty() {
                    blamed = ms.iter().collect();
                }
                for (_, e) in &blamed {
                    props.extend(&e.props);
                }
                if key == "null" {
                    props.push("C18");
                }
                props.push("C03");
                props.sort();
                props.dedup();
                let want: Vec<String> = ms
                    .iter()
                    .map(|(i, e)| format!("#{i} {} {:?} expects one of {:?}", self.msgs[*i].method, self.msgs[*i].k, e.wants))
                    .collect();
                let got: Vec<String> = rs.iter().map(|&r| self.resps[r].body.to_string()).collect();
                out.push((props, format!("wrong answers for id {key}: {}; got {got:?}", want.join("; "))));
            }
        }
        for (key, rs) in by_id {
            let slack = key == "null" && self.msgs.iter().any(|m| m.k == K::MalHeader);
            for r in rs {
                let b = &self.resps[r].body;
                if slack && b["error"]["code"] == -32700 {
                    continue;
                }
                out.push((
                    if key == "null" { vec!["C03", "C18", "C13"] } else { vec!["C03", "C11", "C13"] },
                    format!("response to no request: {b}"),
                ));
            }
        }
        out
    }

    fn assign(&self, ms: &[(usize, Expect)], at: usize, rs: &[usize], used: &mut Vec<bool>, slack: bool) -> bool {
        if at == ms.len() {
            return used.iter().enumerate().all(|(k, &u)| u || (slack && self.resps[rs[k]].body["error"]["code"] == -32700));
        }
        let (i, e) = &ms[at];
        let read = self.msgs[*i].read_seq.unwrap();
        // Equal answers are interchangeable: try each distinct one once.
        let mut tried: Vec<&Value> = vec![];
        for k in 0..rs.len() {
            let r = &self.resps[rs[k]];
            if used[k] || r.seq < read || tried.contains(&&r.body) || !e.wants.iter().any(|w| w.fits(&r.body)) {
                continue;
            }
            tried.push(&r.body);
            used[k] = true;
            if self.assign(ms, at + 1, rs, used, slack) {
                return true;
            }
            used[k] = false;
        }
        e.wants.contains(&Want::Absent) && self.assign(ms, at + 1, rs, used, slack)
    }

    /// A cancellation of a request that was certainly in progress must have won.
    fn cancel_effects(&self, his: &[u64]) -> Vec<(Vec<&'static str>, String)> {
        let mut out = vec![];
        for k in 0..self.msgs.len() {
            if self.msgs[k].k != K::Cancel || !self.is_processed(k) {
                continue;
            }
            let t = self.msgs[k].target.as_ref().unwrap();
            let same: Vec<usize> = (0..k)
                .filter(|&j| self.msgs[j].id.as_ref() == Some(t) && !matches!(self.msgs[j].k, K::CancelWithId | K::Unknown))
                .collect();
            let Some(&i) = same.last() else { continue };
            if same.iter().any(|&j| j != i && self.msgs[j].seen_resp.map_or(true, |s| s > self.msgs[i].read_seq.unwrap_or(0))) {
                continue;
            }
            if let Some(&v) = self.msgs[i].invs.first() {
                let v = &self.invs[v];
                if let (End::Finished(_), Some(e)) = (&v.end, v.end_seq) {
                    if e > his[k] {
                        out.push((vec!["C07"], format!("request #{i} id={t} ran to completion although #{k} had cancelled it")));
                    }
                }
            }
        }
        out
    }

    pub fn client_traffic(&self) -> Vec<(Vec<&'static str>, String)> {
        let mut out = vec![];
        let up = self.out_failed.is_none() && !self.exit_read();
        for (i, n) in self.ntfs.iter().enumerate() {
            let live = n.init_then || n.kind.exempt();
            if !live || n.exit_maybe_then || !up {
                continue;
            }
            let Some((d, _)) = n.done else {
                if !n.dropped {
                    out.push((vec!["C17", "C20", "C12"], format!("sending client notification {i} {:?} never completed", n.kind)));
                }
                continue;
            };
            let owed = match n.actor {
                Actor::Inv(_) => true,
                Actor::Bg(_) => self.in_end_seq.map_or(true, |e| d < e),
            };
            if owed && n.wire.is_empty() {
                out.push((vec!["C17", "C12", "C02"], format!("client notification {i} {:?} (tok {}) of {:?} was never delivered", n.kind, n.tok, n.actor)));
            }
        }
        for (i, c) in self.calls.iter().enumerate() {
            if c.done.is_none() && !c.dropped {
                out.push((vec!["C14", "C12", "C11", "C20"], format!("client request {i} {:?} never resolved", c.kind)));
            }
        }
        out
    }

    /// Damaged headers directly between well-formed frames are reported.
    fn header_errors(&self, exit: Option<usize>) -> Vec<(Vec<&'static str>, String)> {
        if self.out_failed.is_some() {
            return vec![];
        }
        let mut due = 0;
        let mut bodies = 0;
        let mut run = false;
        for i in 0..self.msgs.len() {
            let m = &self.msgs[i];
            if m.read_seq.is_none() || exit.is_some_and(|e| i > e) {
                break;
            }
            match m.k {
                K::MalHeader => run = true,
                k => {
                    if matches!(k, K::MalBody(-32700)) {
                        bodies += 1;
                    }
                    if run {
                        due += 1;
                    }
                    run = false;
                }
            }
        }
        let got = self.resps.iter().filter(|r| r.id.is_null() && r.body["error"]["code"] == -32700).count();
        if due > 0 && got < due + bodies {
            return vec![(vec!["C18"], format!("{due} damaged header sections and {bodies} unparsable bodies, but only {got} parse errors reported"))];
        }
        vec![]
    }
}
