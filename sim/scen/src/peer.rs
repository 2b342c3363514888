//! The simulated LSP client: generates messages, frames them, and independently parses whatever
//! the server writes.

use serde_json::{json, Value};

use crate::clientcalls::{params_match, NtfKind};
use crate::methods::{sample_params, Arity, Pack, M_INITIALIZE, M_INITIALIZED, M_SHUTDOWN};
use crate::world::*;

pub const K_REQ: usize = 0;
pub const K_NTF: usize = 1;
pub const K_CANCEL: usize = 2;
pub const K_DUP: usize = 3;
pub const K_UNKNOWN: usize = 4;
pub const K_BAD: usize = 5;
pub const K_INIT: usize = 6;
pub const K_INITIALIZED: usize = 7;
pub const K_SHUTDOWN: usize = 8;
pub const K_EXIT: usize = 9;
pub const K_MALBODY: usize = 10;
pub const K_MALHDR: usize = 11;
pub const K_STRAY: usize = 12;
pub const K_EMPTY: usize = 13;
pub const K_CUSTOM: usize = 14;
pub const K_CNTF: usize = 15;

pub fn id_key(v: &Value) -> String {
    v.to_string()
}

const TEXTS: [&str; 8] = [
    "plain",
    "héllo wörld",
    "日本語テキスト",
    "emoji 😀🦀 mixed\u{7f}",
    "Content-Length: 5",
    "quote\" back\\slash \n newline \u{1}",
    "line1\r\nContent-Length: 2\r\n\r\n{}",
    "\u{feff}bom \u{10ffff}",
];

impl World {
    pub fn draw_text(&mut self) -> Option<String> {
        if self.cfg.text > 0 && self.ch.chance(self.cfg.text, 100) {
            let i = self.ch.below(TEXTS.len() as u32) as usize;
            let mut s = TEXTS[i].to_string();
            if self.cfg.giants > 0 && self.ch.chance(10, 100) {
                self.cfg.giants -= 1;
                let bytes = [100_000, 1_100_000, 2_500_000, 5_000_000][self.ch.below(4) as usize] + self.ch.below(50_000) as usize;
                s = s.repeat(1 + bytes / s.len());
                self.probe("giant_message");
            } else if self.cfg.big > 0 && self.ch.chance(self.cfg.big, 100) {
                let reps = 1 + self.ch.below(3000);
                s = s.repeat(reps as usize);
                self.probe("big_message");
            }
            Some(s)
        } else {
            None
        }
    }

    /// An error code for a handler or the client to return. Not one by which the library itself refuses a
    /// request in a certain state.
    pub fn draw_code(&mut self) -> i64 {
        const CODES: [i64; 12] =
            [-32603, 1, -32050, -32601, -32800, -32602, -32700, 77_000, -32801, -32803, i64::MAX, i64::MIN];
        match self.ch.below(16) {
            i @ 0..=11 => CODES[i as usize],
            12 => -32000 - self.ch.below(100) as i64 * 9, // -32000, -32009, ... -32891
            13 => 0,
            14 => (1 << 32) + 5,
            _ => self.ch.below(2000) as i64 - 1000,
        }
    }

    fn fresh_id(&mut self) -> Value {
        // Reuse of an answered id.
        if self.cfg.wmsg[K_DUP] > 0 && self.ch.chance(25, 100) {
            let done: Vec<Value> = self
                .msgs
                .iter()
                .filter(|m| m.seen_resp.is_some())
                .filter_map(|m| m.id.clone())
                .filter(|id| !self.msgs.iter().any(|m| m.id.as_ref() == Some(id) && m.seen_resp.is_none()))
                .collect();
            if !done.is_empty() {
                self.probe("id_reused_after_answer");
                let i = self.ch.below(done.len() as u32) as usize;
                return done[i].clone();
            }
        }
        let n = self.next_id;
        self.next_id += 1;
        // Null is also the id of the errors for malformed input: the two are not mixed in one session.
        let null = self.cfg.null_ids && self.cfg.wmsg[K_MALBODY] == 0 && self.cfg.wmsg[K_MALHDR] == 0;
        match self.ch.weighted(&[70, 12, 8, 5, 3, if null { 4 } else { 0 }, 3]) {
            // Ids which neither a 32-bit integer nor a float can hold.
            6 => json!([9_007_199_254_740_993 + n, i64::MAX - n, i64::MIN + n][self.ch.below(3) as usize]),
            0 => json!(n),
            1 => {
                // Now and then an unusual string, which must be told from others alike.
                let t = match self.ch.below(12) {
                    0 => String::new(),
                    1 => format!(" id-{}", n - 1),
                    2 => format!("ID-{}", n - 1),
                    3 => format!("id-{n}\u{0}"),
                    4 => "日本".to_string(),
                    5 => "null".to_string(),
                    6 => format!("{}id-{n}", "long ".repeat(60)),
                    _ => format!("id-{n}"),
                };
                self.unused(json!(t), n)
            }
            // A string id with the same text as an integer id.
            2 => {
                let t = json!(format!("{}", (n - 1).max(0)));
                self.unused(t, n)
            }
            3 => json!(-n),
            4 => json!(2_000_000_000 + n),
            _ => self.unused(Value::Null, n),
        }
    }

    /// An id for the lifecycle requests: not null, which the errors for malformed input bear too.
    fn fresh_named_id(&mut self) -> Value {
        match self.fresh_id() {
            Value::Null => {
                self.next_id += 1;
                json!(self.next_id - 1)
            }
            id => id,
        }
    }

    fn unused(&self, id: Value, n: i64) -> Value {
        if self.msgs.iter().any(|m| m.id.as_ref() == Some(&id) && m.seen_resp.is_none()) {
            json!(n)
        } else {
            id
        }
    }

    fn pending_reqs(&self) -> Vec<usize> {
        (0..self.msgs.len())
            .filter(|&i| {
                let m = &self.msgs[i];
                m.id.is_some()
                    && m.seen_resp.is_none()
                    && !matches!(m.k, K::Reply | K::Stray | K::Cancel)
            })
            .collect()
    }

    fn base(&mut self, k: K) -> Msg {
        let tok = self.next_tok;
        self.next_tok += 1;
        Msg {
            k,
            id: None,
            method: String::new(),
            mi: usize::MAX,
            tok,
            params: None,
            target: None,
            end_off: 0,
            avail_seq: None,
            read_seq: None,
            invs: vec![],
            seen_resp: None,
            special_frame: false,
            cancelled: None,
        }
    }

    /// Sends one message chosen by the workload weights.
    pub fn peer_send(&mut self) {
        self.sent_count += 1;
        let c = self.cfg.clone();
        let mut wt = c.wmsg;
        // Conversation discipline.
        if !self.init_sent && !c.init_never {
            let early = c.wmsg[K_INIT] > 0 && self.ch.chance(15, 100);
            if !early {
                return self.send_init();
            }
        }
        if !c.init_never && !c.pipelined_init && !self.init_seen_ok {
            // A conforming client waits; what it may do meanwhile is cancel or exit.
            let failed = self.msgs.iter().any(|m| m.k == K::Init && m.seen_resp.is_some());
            if failed && self.ch.chance(70, 100) {
                return self.send_init();
            }
        }
        if self.init_seen_ok && !self.initialized_sent && self.ch.chance(60, 100) {
            return self.send_initialized();
        }
        if c.wmsg[K_INIT] == 0 && c.init_never {
            wt[K_INIT] = 0;
        }
        if self.pending_reqs().is_empty() {
            wt[K_CANCEL] /= 2;
            wt[K_DUP] = 0;
        }
        match self.ch.weighted(&wt) {
            K_REQ => self.send_req(false),
            K_CUSTOM => self.send_req(true),
            K_NTF => self.send_ntf(false),
            K_CNTF => self.send_ntf(true),
            K_CANCEL => self.send_cancel(),
            K_DUP => self.send_dup(),
            K_UNKNOWN => self.send_unknown(),
            K_BAD => self.send_bad(),
            K_INIT => self.send_init(),
            K_INITIALIZED => self.send_initialized(),
            K_SHUTDOWN => self.send_shutdown(),
            K_EXIT => self.send_exit(),
            K_MALBODY => self.send_malbody(),
            K_MALHDR => self.send_malhdr(),
            K_STRAY => self.send_stray(),
            K_EMPTY => self.send_empty(),
            _ => self.send_req(true),
        }
    }

    pub fn send_init(&mut self) {
        // Whether one that follows a cancelled but unanswered one is accepted is left open.
        if self.direct && self.msgs.iter().any(|m| m.k == K::Init && m.cancelled.is_some() && m.seen_resp.is_none()) {
            return self.send_req(true);
        }
        let mut m = self.base(K::Init);
        if self.init_sent {
            self.probe("initialize_repeated");
        }
        self.init_sent = true;
        m.mi = M_INITIALIZE;
        m.method = "initialize".into();
        m.id = Some(self.fresh_named_id());
        m.params = Some(sample_params("initialize", m.tok, None));
        self.push_rpc(m);
    }

    fn send_initialized(&mut self) {
        let mut m = self.base(K::Ntf);
        self.initialized_sent = true;
        m.mi = M_INITIALIZED;
        m.method = "initialized".into();
        m.params = Some(json!({}));
        self.push_rpc(m);
    }

    /// A shutdown handler belongs to the first shutdown request that is accepted. So that there is no doubt
    /// which one that is, one that may be refused for being early is awaited before the next.
    pub fn may_send_shutdown(&self) -> bool {
        !self.early_shutdown.is_some_and(|i| self.msgs[i].seen_resp.is_none())
    }

    pub fn send_shutdown(&mut self) {
        if !self.may_send_shutdown() {
            return self.send_req(true);
        }
        if !self.init_seen_ok {
            self.early_shutdown = Some(self.msgs.len());
        }
        let mut m = self.base(K::Shutdown);
        self.shutdown_sent = true;
        m.mi = M_SHUTDOWN;
        m.method = "shutdown".into();
        m.id = Some(self.fresh_named_id());
        self.push_rpc(m);
    }

    pub fn send_exit(&mut self) {
        let mut m = self.base(K::Exit);
        m.method = "exit".into();
        if self.exit_msg.is_none() {
            self.exit_msg = Some(self.msgs.len());
        }
        self.push_rpc(m);
    }

    fn pick_method(&mut self, request: bool, custom: bool) -> usize {
        let t = self.table;
        // A handler without params cannot be traced back to its message by content, so such a message
        // is only sent when there is no doubt that it is the next of its method to be handled.
        let tokenless = self.init_seen_ok
            && !self.shutdown_sent
            && self.exit_msg.is_none()
            && !(request
                && self.msgs.iter().any(|m| m.k == K::Req && m.seen_resp.is_none() && t[m.mi].arity == Arity::NoParams));
        let all: Vec<usize> = (3..t.len())
            .filter(|&i| t[i].request == request && t[i].custom == custom && (tokenless || t[i].arity == Arity::Params))
            .collect();
        if custom {
            let mut wts: Vec<u32> = all.iter().map(|&i| if all[0] == i { 12 } else { 2 }).collect();
            for (j, &i) in all.iter().enumerate() {
                if t[i].rpc == "custom/unserializable" {
                    wts[j] = 1;
                }
            }
            return all[self.ch.weighted(&wts)];
        }
        if self.cfg.methods_all {
            all[self.ch.below(all.len() as u32) as usize]
        } else {
            all[self.ch.below(all.len().min(4) as u32) as usize]
        }
    }

    pub fn send_req(&mut self, custom: bool) {
        let mi = self.pick_method(true, custom);
        let mut m = self.base(K::Req);
        m.id = Some(if self.table[mi].arity == Arity::NoParams {
            self.next_id += 1;
            json!(self.next_id - 1)
        } else {
            self.fresh_id()
        });
        self.fill(&mut m, mi);
        self.push_rpc(m);
    }

    fn fill(&mut self, m: &mut Msg, mi: usize) {
        m.mi = mi;
        let info = &self.table[mi];
        m.method = info.rpc.into();
        if info.arity == Arity::Params {
            let text = self.draw_text();
            m.params = Some(sample_params(info.rpc, m.tok, text.as_deref()));
        }
    }

    fn send_ntf(&mut self, custom: bool) {
        let mi = self.pick_method(false, custom);
        let mut m = self.base(K::Ntf);
        self.fill(&mut m, mi);
        self.push_rpc(m);
    }

    fn send_dup(&mut self) {
        let pend = self.pending_reqs();
        // At most one duplicate per id keeps the expected answers decidable.
        let cands: Vec<usize> = pend
            .into_iter()
            .filter(|&i| {
                matches!(self.msgs[i].k, K::Req | K::BadReq(_))
                    && self.msgs.iter().filter(|m| m.id == self.msgs[i].id && m.seen_resp.is_none()).count() == 1
            })
            .collect();
        if cands.is_empty() {
            return self.send_req(true);
        }
        let o = cands[self.ch.below(cands.len() as u32) as usize];
        let custom = self.ch.chance(50, 100);
        let mi = loop {
            let mi = self.pick_method(true, custom);
            if self.table[mi].arity == Arity::Params {
                break mi;
            }
        };
        let mut m = self.base(K::Req);
        m.id = self.msgs[o].id.clone();
        self.fill(&mut m, mi);
        self.probe("duplicate_id_in_flight");
        self.push_rpc(m);
    }

    fn send_cancel(&mut self) {
        let mut m = self.base(K::Cancel);
        m.method = "$/cancelRequest".into();
        let pend: Vec<Value> = self
            .pending_reqs()
            .into_iter()
            .filter(|&i| self.msgs[i].k != K::CancelWithId)
            .filter_map(|i| self.msgs[i].id.clone())
            .filter(cancellable_id)
            .collect();
        let old: Vec<Value> = self
            .msgs
            .iter()
            .filter(|m| m.seen_resp.is_some())
            .filter_map(|m| m.id.clone())
            .filter(cancellable_id)
            .collect();
        let kind = self.ch.weighted(&[
            if pend.is_empty() { 0 } else { 80 },
            if old.is_empty() { 0 } else { 8 },
            8,
        ]);
        let target = match kind {
            0 => {
                // The rare requests which change the state of the server are favoured.
                let special: Vec<Value> = self
                    .pending_reqs()
                    .into_iter()
                    .filter(|&i| matches!(self.msgs[i].k, K::Init | K::Shutdown))
                    .filter_map(|i| self.msgs[i].id.clone())
                    .filter(cancellable_id)
                    .collect();
                if !special.is_empty() && self.ch.chance(20, 100) {
                    self.probe("cancel_lifecycle_request");
                    special[self.ch.below(special.len() as u32) as usize].clone()
                } else {
                    pend[self.ch.below(pend.len() as u32) as usize].clone()
                }
            }
            1 => {
                self.probe("cancel_answered_id");
                old[self.ch.below(old.len() as u32) as usize].clone()
            }
            _ => {
                self.probe("cancel_unknown_id");
                match self.ch.below(6) {
                    // Ids which requests to come will probably have.
                    3 | 4 => {
                        self.probe("cancel_ahead_of_request");
                        json!(self.next_id + self.ch.below(4) as i64)
                    }
                    5 => json!(format!("id-{}", self.next_id + self.ch.below(3) as i64)),
                    0 => json!(987_654),
                    1 => json!("nope"),
                    // The other type of an id in use.
                    _ => match pend.first() {
                        Some(Value::Number(n)) => json!(n.to_string()),
                        _ => json!(-77_777),
                    },
                }
            }
        };
        m.params = Some(json!({ "id": target }));
        m.target = Some(target);
        self.push_rpc(m);
    }

    fn send_unknown(&mut self) {
        let names = ["custom/nope", "textDocument/hover2", "", "$/unknown", "Initialize", "textDocument/Hover", "rpc.discover"];
        let mut name = names[self.ch.below(names.len() as u32) as usize].to_string();
        if self.ch.chance(30, 100) {
            // The name of a method, but for a detail.
            let t = self.table;
            let known = |n: &str| n == "exit" || n == "$/cancelRequest" || t.iter().any(|m| m.rpc == n);
            let i = self.ch.below(t.len() as u32 + 2) as usize;
            let n = t.get(i).map_or(["exit", "$/cancelRequest"][i % 2], |m| m.rpc);
            let near = match self.ch.below(9) {
                0 => format!("{n}/"),
                1 => format!("/{n}"),
                2 => format!("{n} "),
                3 => n.to_uppercase(),
                4 => n[..n.len() - 1].to_string(),
                5 => format!("$/{n}"),
                6 => format!("{n}\u{0}"),
                7 => n.split('/').last().unwrap().to_string(),
                _ => n.replace('/', "."),
            };
            if !known(&near) {
                self.probe("near_miss_method");
                name = near;
            }
        }
        let as_req = self.ch.chance(70, 100);
        let mut m = self.base(if as_req { K::Unknown } else { K::Ignored });
        m.method = name;
        if as_req {
            m.id = Some(self.fresh_id());
        }
        if self.ch.chance(50, 100) {
            m.params = Some(json!({"x": 1}));
        }
        self.push_rpc(m);
    }

    fn send_bad(&mut self) {
        let t = self.table;
        match self.ch.below(7) {
            0 | 1 => {
                // Request with bad or missing params.
                let mi = loop {
                    let custom = self.ch.chance(50, 100);
                    let mi = self.pick_method(true, custom);
                    if t[mi].arity == Arity::Params {
                        break mi;
                    }
                };
                let mut m = self.base(K::BadReq(-32602));
                m.mi = mi;
                m.method = t[mi].rpc.into();
                m.id = Some(self.fresh_id());
                m.params = match self.ch.below(if t[mi].nullable() { 3 } else { 4 }) {
                    0 => None,
                    1 => Some(json!(17)),
                    3 => Some(Value::Null),
                    _ => Some(json!({"textDocument": 3, "tag": 4, "label": 1, "title": [], "query": 0, "command": {}, "files": 1, "item": 0, "range": 1, "name": 2, "position": false, "previousResultIds": 1})),
                };
                self.push_rpc(m);
            }
            2 => {
                // Params for a method that takes none.
                let mut m = self.base(K::BadReq(-32602));
                m.method = "custom/req0".into();
                m.id = Some(self.fresh_id());
                m.params = Some(match self.ch.below(4) {
                    0 => json!({"a": 1}),
                    1 => json!([]),
                    3 => json!({}),
                    _ => Value::Null,
                });
                self.push_rpc(m);
            }
            3 => {
                // A request for a notification-only method.
                let custom = self.ch.chance(50, 100);
                let mi = self.pick_method(false, custom);
                let mut m = self.base(K::BadReq(-32600));
                m.id = Some(self.fresh_id());
                self.fill(&mut m, mi);
                self.push_rpc(m);
            }
            4 => {
                // A request method without an id, including the lifecycle ones.
                let mut m = self.base(K::Ignored);
                match self.ch.below(4) {
                    0 => {
                        m.method = "shutdown".into();
                        self.probe("shutdown_without_id");
                    }
                    1 => {
                        m.method = "initialize".into();
                        m.params = Some(json!({"capabilities": {}}));
                        self.probe("initialize_without_id");
                    }
                    _ => {
                        let custom = self.ch.chance(50, 100);
                        let mi = self.pick_method(true, custom);
                        self.fill(&mut m, mi);
                    }
                }
                self.push_rpc(m);
            }
            5 => {
                // A notification with bad, missing or unexpected params.
                let mut m = self.base(K::Ignored);
                match self.ch.below(4) {
                    0 => {
                        m.method = "$/cancelRequest".into();
                        m.params = [None, Some(json!({"bad": true})), Some(json!({"id": [1]}))][self.ch.below(3) as usize].clone();
                    }
                    1 => {
                        m.method = "custom/ntf0".into();
                        m.params = Some([json!({"bad": true}), json!([])][self.ch.below(2) as usize].clone());
                    }
                    _ => {
                        let mi = loop {
                            let custom = self.ch.chance(50, 100);
                            let mi = self.pick_method(false, custom);
                            if t[mi].arity == Arity::Params {
                                break mi;
                            }
                        };
                        m.mi = mi;
                        m.method = t[mi].rpc.into();
                        if !t[mi].nullable() && self.ch.chance(60, 100) {
                            m.params = Some([json!(17), json!({"bad": true}), json!(null)][self.ch.below(3) as usize].clone());
                        }
                    }
                }
                self.push_rpc(m);
            }
            _ => {
                let mut m = self.base(K::CancelWithId);
                m.method = "$/cancelRequest".into();
                m.id = Some(self.fresh_id());
                m.params = Some(json!({"id": 999_999}));
                self.push_rpc(m);
            }
        }
    }

    fn send_malbody(&mut self) {
        self.mal_any = true;
        self.fault("malformed_body");
        let n = self.next_id + 1000;
        let v = self.ch.below(24);
        let (code, bytes): (i64, Vec<u8>) = match v {
            14 => (-32700, "\u{feff}{}".as_bytes().to_vec()),
            15 => (-32700, br#"{"jsonrpc":"2.0","method":"custom/ntf0",}"#.to_vec()),
            16 => (-32700, br#"{'jsonrpc':'2.0'}"#.to_vec()),
            17 => (-32700, b"Content-Length: 2\r\n\r\n{}".to_vec()),
            18 => (-32600, format!(r#"[{{"jsonrpc":"2.0","method":"custom/req0","id":{n}}}]"#).into_bytes()),
            19 => (-32600, b"true".to_vec()),
            20 => (-32600, br#"{"jsonrpc":2.0,"method":"custom/ntf0"}"#.to_vec()),
            21 => (-32600, br#"{"jsonrpc":"2.0","method":"custom/req0","id":1.5}"#.to_vec()),
            22 => (-32600, br#"{"method":"custom/ntf0","params":{}}"#.to_vec()),
            0 => (-32700, br#"{"jsonrpc":"2.0","method":"#.to_vec()),
            1 => (-32700, b"not json at all".to_vec()),
            2 => (-32700, b"\xff\xfe{}".to_vec()),
            3 => (-32700, br#"{"jsonrpc":"2.0","method":"custom/ntf0"}}"#.to_vec()),
            4 => (-32700, [br#"{"jsonrpc":"2.0","method":"custom/ntf","params":{"tag":"a"#.to_vec(), vec![0xc3, 0x28], br#""}}"#.to_vec()].concat()),
            5 => (-32700, b" ".to_vec()),
            6 => (-32700, b"\xe6\x97".to_vec()),
            7 => (-32600, b"[]".to_vec()),
            8 => (-32600, b"5".to_vec()),
            9 => (-32600, b"\"text\"".to_vec()),
            10 => (-32600, format!(r#"{{"jsonrpc":"1.0","method":"custom/req0","id":{n}}}"#).into_bytes()),
            11 => (-32600, format!(r#"{{"jsonrpc":"2.0","method":5,"id":{n}}}"#).into_bytes()),
            12 => (-32600, br#"{"jsonrpc":"2.0","method":"custom/req0","id":{}}"#.to_vec()),
            13 => (-32600, b"{}".to_vec()),
            _ => (-32600, b"null".to_vec()),
        };
        let mut m = self.base(K::MalBody(code));
        m.method = format!("malformed body {v}");
        self.push_frame(m, &bytes);
    }

    fn send_malhdr(&mut self) {
        self.mal_any = true;
        self.fault("malformed_header");
        let v = self.ch.below(13);
        let bytes: &[u8] = match v {
            0 => b"Content-Length: abc\r\n\r\n",
            1 => b"Content-Length: -5\r\n\r\n",
            2 => b"Content-Length: 99999999999999999999999\r\n\r\n",
            3 => b"Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n",
            4 => b"Content-Length: 2\r\nContent-Type: text/plain; charset=latin1\r\n\r\n{}",
            5 => b"!!junk line\r\n\r\n",
            6 => b"\r\n\r\n",
            7 => b"\x00\x01\xff\xfe\r\n\r\n",
            8 => b"Content-Length\r\n\r\n",
            9 => b"Content-Length: \r\n\r\n",
            10 => b"Content-LengthX: 5\r\n\r\n",
            11 => b"{\"jsonrpc\":\"2.0\",\"method\":\"exit\"}",
            _ => b"Content-Length: 12a\r\nContent-Type: a/b; charset=utf-8\r\n\r\nhello there, ",
        };
        let mut m = self.base(K::MalHeader);
        m.method = format!("malformed header {v}");
        let bytes = bytes.to_vec();
        self.push_raw(m, &bytes);
    }

    fn send_empty(&mut self) {
        let m = self.base(K::Empty);
        self.fault("empty_frame");
        self.push_frame(m, b"");
    }

    fn send_stray(&mut self) {
        self.fault("stray_response");
        let mut m = self.base(K::Stray);
        let answered: Vec<Value> =
            self.sreqs.iter().filter(|s| s.reply.is_some()).map(|s| s.id.clone()).collect();
        let waiting: Vec<Value> =
            self.sreqs.iter().filter(|s| s.reply.is_none()).map(|s| s.id.clone()).collect();
        // Ids which the server has not used so far, but may use later; see `stray_may_answer`.
        let next = self.sreqs.iter().filter_map(|s| s.id.as_i64()).max().map_or(0, |n| n + 1);
        let ahead = self.sent_count < 80;
        let id = match self.ch.weighted(&[10, 10, 10, 5, if answered.is_empty() { 0 } else { 30 }, if ahead { 20 } else { 0 }, if waiting.is_empty() { 0 } else { 20 }]) {
            6 => {
                // Looks like an id in use, but is not.
                self.probe("stray_alias_of_id_in_flight");
                match &waiting[self.ch.below(waiting.len() as u32) as usize] {
                    Value::Number(n) => {
                        let n = n.as_i64().unwrap();
                        match self.ch.below(4) {
                            0 | 1 => json!(n.to_string()),
                            2 => json!(n + (1 << 32)),
                            _ => json!(n + (1 << 16)),
                        }
                    }
                    Value::String(s) => match self.ch.below(2) {
                        0 => json!(s.to_uppercase()),
                        _ => json!(format!("{s} ")),
                    },
                    _ => Value::Null,
                }
            }
            0 => json!(1_000_000_007i64),
            1 => Value::Null,
            2 => json!("no-such-id"),
            3 => json!(-1),
            5 => {
                self.probe("stray_id_of_the_future");
                let id = json!(next + self.ch.below(4) as i64);
                self.strays_ahead.push((id_key(&id), self.msgs.len()));
                id
            }
            _ => {
                self.probe("duplicate_reply");
                answered[self.ch.below(answered.len() as u32) as usize].clone()
            }
        };
        m.method = format!("stray response {id}");
        let body = match self.ch.below(3) {
            0 => json!({"jsonrpc": "2.0", "id": id, "result": {"stray": true}}),
            1 => json!({"jsonrpc": "2.0", "id": id, "result": null}),
            _ => json!({"jsonrpc": "2.0", "id": id, "error": {"code": -32603, "message": "stray"}}),
        };
        let text = self.spell(body);
        self.push_frame(m, text.as_bytes());
    }

    /// Replies to the server's request `si`.
    pub fn peer_reply(&mut self, si: usize) {
        let call = self.sreqs[si].call;
        let id = self.sreqs[si].id.clone();
        let mut m = self.base(K::Reply);
        m.method = format!("reply to {id}");
        let kind = call.map(|c| self.calls[c].kind);
        let (eb, bb) = (self.cfg.reply_err, self.cfg.reply_bad);
        let how = self.ch.weighted(&[100, eb, if kind.is_some_and(|k| k.bad_reply().is_some()) { bb } else { 0 }]);
        let (body, expect) = match (how, kind) {
            (1, _) => {
                let code = self.draw_code();
                let e = if self.ch.chance(50, 100) {
                    json!({"code": code, "message": format!("refused {}", m.tok), "data": {"t": m.tok}})
                } else {
                    json!({"code": code, "message": format!("refused {}", m.tok)})
                };
                (json!({"jsonrpc": "2.0", "id": id, "error": e}), Err(Some(e)))
            }
            (2, Some(k)) => {
                (json!({"jsonrpc": "2.0", "id": id, "result": k.bad_reply().unwrap()}), Err(None))
            }
            (_, Some(k)) => {
                let variant = self.ch.below(2);
                let (v, got) = k.good_reply(m.tok, variant);
                (json!({"jsonrpc": "2.0", "id": id, "result": v}), Ok(got))
            }
            (_, None) => (json!({"jsonrpc": "2.0", "id": id, "result": null}), Ok(Value::Null)),
        };
        self.sreqs[si].reply = Some(Reply { msg: self.msgs.len(), expect });
        let text = self.spell(body);
        self.push_frame(m, text.as_bytes());
    }

    fn push_rpc(&mut self, mut m: Msg) {
        // Default implementations: requests are refused, notifications are ignored.
        if self.cfg.pack == Pack::Minimal && self.table.get(m.mi).is_some_and(|t| !t.custom) && m.mi != M_INITIALIZE && m.mi != M_SHUTDOWN {
            if matches!(m.k, K::Req | K::Ntf) {
                self.probe("default_implementation");
            }
            m.k = match m.k {
                K::Req => K::BadReq(-32601),
                K::Ntf => K::Ignored,
                k => k,
            };
        }
        let mut body = serde_json::Map::new();
        body.insert("jsonrpc".into(), json!("2.0"));
        // A message without a method counts as one with an unknown method.
        if !m.method.is_empty() || self.ch.chance(50, 100) {
            body.insert("method".into(), json!(m.method));
        } else {
            self.probe("no_method");
        }
        if let Some(id) = &m.id {
            body.insert("id".into(), id.clone());
        }
        if let Some(p) = &m.params {
            body.insert("params".into(), p.clone());
        }
        let text = self.spell(Value::Object(body));
        self.push_frame(m, text.as_bytes());
    }

    /// Some JSON text for the message: order of the members, white space, escapes and members
    /// which mean nothing are free.
    fn spell(&mut self, v: Value) -> String {
        let fv = self.cfg.frame_variety;
        if fv == 0 || !self.ch.chance(fv, 100) {
            return v.to_string();
        }
        match self.ch.below(5) {
            0 => serde_json::to_string_pretty(&v).unwrap(),
            1 => format!("  {v}\n"),
            2 => ascii_escape(&v.to_string()),
            _ => {
                self.probe("members_shuffled");
                let Value::Object(o) = v else { return v.to_string() };
                let mut members: Vec<(String, Value)> = o.into_iter().collect();
                match self.ch.below(4) {
                    0 => members.push(("trace".into(), json!({"id": 99, "method": "exit", "result": null}))),
                    1 => members.push(("x-parent".into(), json!("00-ab"))),
                    _ => {}
                }
                let mut out = vec![];
                while !members.is_empty() {
                    let i = self.ch.below(members.len() as u32) as usize;
                    let (k, v) = members.remove(i);
                    out.push(format!("{}:{v}", Value::String(k)));
                }
                format!("{{{}}}", out.join(","))
            }
        }
    }

    fn push_frame(&mut self, mut m: Msg, body: &[u8]) {
        if self.direct {
            let i = self.register(m);
            let s = self.seq;
            self.msgs[i].avail_seq = Some(s);
            self.msgs[i].read_seq = Some(s);
            self.direct_q.push_back((i, body.to_vec()));
            return;
        }
        let fv = self.cfg.frame_variety;
        let n = body.len();
        let head = if fv > 0 && self.ch.chance(fv, 100) {
            m.special_frame = true;
            match self.ch.below(8) {
                4 => format!("Content-Length:{n}\r\n\r\n"),
                5 => format!("Content-Length:  {n} \r\n\r\n"),
                6 => format!("Content-Length: {n}\r\nContent-Type:application/json; charset=utf-8; x=y\r\n\r\n"),
                7 => format!("X-Trace: ab\r\nContent-Length: {n}\r\n\r\n"),
                0 => format!("Content-Length: {n}\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n"),
                1 => format!("Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: {n}\r\n\r\n"),
                2 => format!("Content-Type: application/vscode-jsonrpc;charset=utf8\r\nContent-Length: {n}\r\n\r\n"),
                _ => format!("Content-Length: {n}\r\nContent-Type: application/vscode-jsonrpc; charset=utf8\r\n\r\n"),
            }
        } else {
            format!("Content-Length: {n}\r\n\r\n")
        };
        let mut bytes = head.into_bytes();
        bytes.extend_from_slice(body);
        self.push_raw(m, &bytes);
    }

    fn push_raw(&mut self, mut m: Msg, bytes: &[u8]) {
        self.wire.extend(bytes);
        self.wire_off += bytes.len() as u64;
        m.end_off = self.wire_off;
        self.register(m);
    }

    fn register(&mut self, m: Msg) -> usize {
        let i = self.msgs.len();
        let tag = m.k;
        let desc = format!("{} id={:?} tok={} params={:?} target={:?}", m.method, m.id, m.tok, m.params.as_ref().map(|p| {
            let mut s = p.to_string();
            if s.len() > 160 {
                let cut = (0..=160).rev().find(|&i| s.is_char_boundary(i)).unwrap();
                s.truncate(cut);
                s.push('…');
            }
            s
        }), m.target);
        let h = m.method.len() as u64 * 31 + m.end_off;
        if m.mi != usize::MAX || m.tok > 0 {
            self.tok_msg.insert(m.tok, i);
        }
        self.msgs.push(m);
        self.ev(b'm', h, || format!("client sends #{i} {tag:?} {desc}"));
        i
    }

    /// Makes `n` more bytes readable for the server.
    pub fn deliver(&mut self, n: usize) {
        let n = n.min(self.wire.len());
        if n == 0 {
            return;
        }
        let chunk: Vec<u8> = self.wire.drain(..n).collect();
        self.in_buf.extend(chunk);
        self.deliv_off += n as u64;
        let off = self.deliv_off;
        let s = self.ev(b'd', n as u64, || format!("network delivers {n} bytes (to {off})"));
        while self.next_avail < self.msgs.len() && self.msgs[self.next_avail].end_off <= off {
            let i = self.next_avail;
            self.msgs[i].avail_seq = Some(s);
            self.next_avail += 1;
        }
        self.wake_in();
    }

    /// Strictly parses newly visible output.
    pub fn parse_output(&mut self) {
        if self.out_broken {
            return;
        }
        loop {
            let buf = &self.out_vis;
            let Some(h) = find(buf, b"\r\n\r\n") else {
                if buf.len() > 400 || (!buf.is_empty() && !prefix_ok(buf)) {
                    let shown = String::from_utf8_lossy(&buf[..buf.len().min(80)]).into_owned();
                    self.out_broken = true;
                    self.viol(&["C02", "C13"], format!("output is not a frame header: {shown:?}"));
                }
                return;
            };
            let head = String::from_utf8_lossy(&buf[..h]).into_owned();
            let mut len = None;
            let mut bad = false;
            for line in head.split("\r\n") {
                match line.split_once(':') {
                    Some(("Content-Length", v)) if len.is_none() => match v.trim().parse::<usize>() {
                        Ok(n) => len = Some(n),
                        Err(_) => bad = true,
                    },
                    Some(("Content-Type", _)) => {}
                    _ => bad = true,
                }
            }
            let Some(len) = len.filter(|_| !bad) else {
                self.out_broken = true;
                self.viol(&["C02", "C13"], format!("bad frame header in output: {head:?}"));
                return;
            };
            if buf.len() < h + 4 + len {
                return;
            }
            let body: Vec<u8> = buf[h + 4..h + 4 + len].to_vec();
            self.out_vis.drain(..h + 4 + len);
            match std::str::from_utf8(&body).ok().and_then(|s| serde_json::from_str::<Value>(s).ok()) {
                Some(v) => self.on_frame(v),
                None => {
                    self.out_broken = true;
                    self.viol(&["C02", "C13"], format!("output frame body is not JSON: {:?}", String::from_utf8_lossy(&body[..body.len().min(120)])));
                    return;
                }
            }
        }
    }

    pub fn on_frame(&mut self, v: Value) {
        let text = v.to_string();
        let mut h = simcore::chooser::Fnv::default();
        h.add(text.as_bytes());
        let s = self.ev(b'p', h.0, || {
            let mut t = text;
            if t.len() > 300 {
                let cut = (0..=300).rev().find(|&i| t.is_char_boundary(i)).unwrap();
                t.truncate(cut);
            }
            format!("client receives {t}")
        });
        let Some(o) = v.as_object() else {
            self.viol(&["C02"], format!("output message is not an object: {v}"));
            return;
        };
        if o.get("jsonrpc") != Some(&json!("2.0")) {
            self.viol(&["C02", "C03"], format!("output message without jsonrpc 2.0: {v}"));
        }
        match (o.get("method"), o.get("id")) {
            (Some(Value::String(m)), Some(id)) => self.on_server_request(m, id, o.get("params"), s),
            (Some(Value::String(m)), None) => self.on_server_notification(m, o.get("params"), s),
            (None, Some(id)) => self.on_response(id, &v, s),
            _ => self.viol(&["C02", "C03"], format!("output message is neither request nor response: {v}")),
        }
    }

    fn on_response(&mut self, id: &Value, v: &Value, s: u64) {
        if v.get("result").is_some() == v.get("error").is_some() {
            self.viol(&["C03", "C02"], format!("response must have exactly one of result and error: {v}"));
        }
        self.resps.push(Resp { id: id.clone(), body: v.clone(), seq: s });
        // The client's own bookkeeping.
        if let Some(i) = self.attribute(id, v) {
            self.msgs[i].seen_resp = Some(s);
            if self.msgs[i].k == K::Init && v.get("result").is_some() {
                self.init_seen_ok = true;
            }
        }
    }

    /// The unanswered request with that id which the response most likely belongs to.
    fn attribute(&self, id: &Value, v: &Value) -> Option<usize> {
        let cands: Vec<usize> = (0..self.msgs.len())
            .filter(|&i| {
                let m = &self.msgs[i];
                m.id.as_ref() == Some(id) && m.seen_resp.is_none() && m.read_seq.is_some()
            })
            .collect();
        let body: Result<&Value, &Value> = match v.get("result") {
            Some(r) => Ok(r),
            None => Err(v.get("error").unwrap_or(&Value::Null)),
        };
        let code = v["error"]["code"].as_i64();
        let rank = |i: usize| -> u32 {
            let m = &self.msgs[i];
            match m.invs.first().map(|&x| &self.invs[x].end) {
                Some(End::Finished(r)) if r.as_ref() == body => 0,
                Some(End::Finished(_)) if code.is_none() => 1,
                Some(End::Finished(_)) => 5,
                Some(End::Dropped) => if code == Some(-32800) { 1 } else { 6 },
                Some(End::Running) => 9,
                None => match (code, m.k) {
                    (None, _) => 7,
                    (Some(-32601), K::Unknown) | (Some(-32602 | -32601), K::BadReq(_)) => 0,
                    (Some(-32600), K::CancelWithId) => 0,
                    (Some(-32600 | -32800 | -32002), K::Req | K::Init | K::Shutdown | K::BadReq(_)) => 2,
                    _ => 8,
                },
            }
        };
        let best = cands.iter().copied().min_by_key(|&i| (rank(i), i))?;
        let malformed = id.is_null() && matches!(code, Some(-32700 | -32600));
        if rank(best) >= 3 && malformed {
            return None;
        }
        Some(best)
    }

    fn on_server_request(&mut self, m: &str, id: &Value, params: Option<&Value>, s: u64) {
        let key = id_key(id);
        let dup = self.sreq_ids.contains_key(&key);
        if dup {
            self.viol(&["C14", "C19"], format!("server request id {id} used twice"));
        }
        // Which call is it?
        let tok = params.and_then(crate::methods::find_tok);
        let found = match tok {
            Some(t) => self.tok_call.get(&t).copied(),
            None => self
                .calls
                .iter()
                .position(|c| c.wire.is_none() && !c.kind.has_token() && c.kind.wire(0).0 == m && c.done.is_none()),
        };
        let found = found.or_else(|| {
            let same = |c: &Call| c.wire.is_none() && !c.kind.has_token() && c.kind.wire(0).0 == m;
            let refused = |c: &Call| matches!(&c.done, Some((_, _, Err(e))) if e["code"] == -32002);
            let p = self.calls.iter().position(|c| same(c) && !refused(c));
            p.or_else(|| self.calls.iter().position(same))
        });
        let si = self.sreqs.len();
        match found {
            None => self.viol(&["C14", "C17"], format!("server request nobody made: {m} {params:?}")),
            Some(c) => {
                let call = &self.calls[c];
                let (em, ep) = call.kind.wire(call.tok);
                if em != m || !params_match(&ep, params) {
                    self.viol(&["C14"], format!("server request sent as {m} {params:?}, expected {em} {ep}"));
                }
                let call = &self.calls[c];
                if call.wire.is_some() {
                    self.viol(&["C14"], format!("server request {m} sent twice"));
                } else {
                    let gated = (!call.init_then && !call.kind.exempt() && !call.kind.raw()) || call.exit_surely_then;
                    if gated {
                        self.viol(&["C16"], format!("{m} written although the server was not initialized (or had exited)"));
                    }
                    self.calls[c].wire = Some(si);
                }
            }
        }
        self.sreq_ids.insert(key, si);
        self.sreqs.push(SReq { id: id.clone(), call: found, seen: s, reply: None });
    }

    fn on_server_notification(&mut self, m: &str, params: Option<&Value>, s: u64) {
        let tok = match params {
            Some(p) if m == "$/progress" && p["token"].is_u64() => p["token"].as_u64().map(|t| t as u32),
            p => p.and_then(crate::methods::find_tok),
        };
        let step = match (m, params) {
            ("$/progress", Some(p)) => {
                // Which step of the sequence: the first one not seen whose content matches.
                let t = tok.unwrap_or(0);
                (0..6u8)
                    .find(|st| {
                        self.tok_ntf.get(&(t, *st)).is_some_and(|&i| {
                            self.ntfs[i].wire.is_empty() && params_match(&self.ntfs[i].kind.wire(t).1, Some(p))
                        })
                    })
                    .or_else(|| {
                        (0..6u8).find(|st| {
                            self.tok_ntf.get(&(t, *st)).is_some_and(|&i| params_match(&self.ntfs[i].kind.wire(t).1, Some(p)))
                        })
                    })
                    .unwrap_or(0)
            }
            _ => 0,
        };
        let bare = || {
            let fits = |n: &Ntf| {
                matches!(n.kind, NtfKind::Bare(_)) && n.wire.is_empty() && n.kind.wire(0).0 == m && n.kind.wire(0).1 == *params.unwrap_or(&Value::Null)
            };
            let (sent, refused): (Vec<usize>, Vec<usize>) =
                (0..self.ntfs.len()).filter(|&i| fits(&self.ntfs[i])).partition(|&i| !self.ntfs[i].exit_surely_then);
            sent.into_iter().chain(refused).next()
        };
        let found = match tok {
            Some(t) => self.tok_ntf.get(&(t, step)).copied(),
            None => bare(),
        };
        match found {
            None => self.viol(&["C17"], format!("server notification nobody sent: {m} {params:?}")),
            Some(i) => {
                let n = &self.ntfs[i];
                let (em, ep) = n.kind.wire(n.tok);
                if em != m || !params_match(&ep, params) {
                    self.viol(&["C17"], format!("server notification sent as {m} {params:?}, expected {em} {ep}"));
                }
                let n = &self.ntfs[i];
                if !n.wire.is_empty() {
                    self.viol(&["C17"], format!("server notification {m} delivered twice"));
                }
                let n = &self.ntfs[i];
                if (!n.init_then && !n.kind.exempt()) || n.exit_surely_then {
                    self.viol(&["C16"], format!("{m} written although the server was not initialized (or had exited)"));
                }
                // Order within the sender.
                let actor = self.ntfs[i].actor;
                let later = self.ntfs.iter().enumerate().any(|(j, o)| j > i && o.actor == actor && !o.wire.is_empty());
                if later {
                    self.viol(&["C17"], format!("server notification {m} overtaken by a later one of the same sender"));
                }
                self.ntfs[i].wire.push(s);
            }
        }
    }
}

fn ascii_escape(s: &str) -> String {
    let mut out = String::new();
    for c in s.chars() {
        if c.is_ascii() {
            out.push(c);
        } else {
            let mut b = [0; 2];
            for u in c.encode_utf16(&mut b) {
                out.push_str(&format!("\\u{u:04x}"));
            }
        }
    }
    out
}

/// Whether the params of a cancellation can hold the id: a string or a 32-bit integer.
fn cancellable_id(id: &Value) -> bool {
    id.is_string() || id.as_i64().is_some_and(|n| i32::try_from(n).is_ok())
}

pub fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    hay.windows(needle.len()).position(|w| w == needle)
}

fn prefix_ok(buf: &[u8]) -> bool {
    let a = b"Content-Length: ";
    let b = b"Content-Type: ";
    let n = buf.len().min(a.len());
    let m = buf.len().min(b.len());
    buf[..n] == a[..n] || buf[..m] == b[..m]
}
