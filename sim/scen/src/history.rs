//! Fixed histories: recorded findings that are replayed exactly.

use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

use futures::future::{BoxFuture, FutureExt};
use serde_json::{json, Value};
use simcore::chooser::Chooser;
use tower_lsp::jsonrpc::Error;
use tower_lsp::{Client, Server};

use crate::clientcalls::{self, ReqKind};
use crate::methods::{build_service, Pack, sample_params, sample_result, Engine, MethodInfo};
use crate::pipes::{InPipe, OutPipe};
use crate::session::Task;
use crate::world::*;

/// Every handler asks the client something and answers with what it gets.
struct Asking;

impl Engine for Asking {
    fn handle(&self, client: &Client, method: &'static str, _: Option<Value>) -> BoxFuture<'static, Result<Value, Error>> {
        let client = client.clone();
        async move {
            if method != "initialize" {
                clientcalls::request(&client, ReqKind::Custom, 1).await?;
            }
            Ok(sample_result(method, 1, None))
        }
        .boxed()
    }
}

fn frame(v: Value) -> Vec<u8> {
    let b = v.to_string();
    format!("Content-Length: {}\r\n\r\n{b}", b.len()).into_bytes()
}

/// The client writes `n` requests back to back, then answers every request of the server as soon as it
/// sees it. Returns how many of its own requests were answered when nothing moves any more.
fn pile(n: i64, table: &'static [MethodInfo]) -> usize {
    let mut ch = Chooser::replay(vec![]);
    let cfg = Cfg::draw(&mut ch, "ANY");
    install(World::new(ch, cfg, table, false));
    w(|w| {
        w.cfg.chunk = 0;
        w.cfg.spurious = 0;
        w.cfg.short_write = false;
        w.cfg.pend_flush = false;
        w.calm = true;
    });
    let (service, socket) = build_service(Arc::new(Asking), Pack::Plain);
    let fut: Pin<Box<dyn Future<Output = ()>>> = Box::pin(Server::new(InPipe, OutPipe, socket).serve(service));
    let mut task = Task::new(fut);
    let mut seen = 0;
    let mut feed = |bytes: Vec<u8>| -> Vec<Value> {
        w(|w| {
            w.in_buf.extend(bytes);
            w.wake_in();
        });
        while task.runnable() {
            task.flag.woken.store(false, std::sync::atomic::Ordering::Relaxed);
            let mut cx = Context::from_waker(&task.waker);
            if let Poll::Ready(()) = task.fut.as_mut().unwrap().as_mut().poll(&mut cx) {
                task.fut = None;
            }
        }
        // The parser of the simulated client records what it gets.
        w(|w| {
            let new = w.sreqs[seen..].iter().map(|s| s.id.clone()).collect();
            seen = w.sreqs.len();
            new
        })
    };
    feed(frame(json!({"jsonrpc": "2.0", "id": 0, "method": "initialize", "params": sample_params("initialize", 1, None)})));
    let mut all = vec![];
    for i in 1..=n {
        all.extend(frame(json!({"jsonrpc": "2.0", "id": i, "method": "custom/req", "params": {"tag": "tok:1"}})));
    }
    let mut asked = feed(all);
    while !asked.is_empty() {
        let mut bytes = vec![];
        for id in asked.drain(..) {
            bytes.extend(frame(json!({"jsonrpc": "2.0", "id": id, "result": {"tag": "tok:1", "n": 1}})));
        }
        asked = feed(bytes);
    }
    drop(task);
    let answered = w(|w| w.resps.iter().filter(|r| r.id.as_i64().is_some_and(|i| i > 0)).count());
    uninstall();
    answered
}

/// Exit code 1 if the history fails.
pub fn run(name: &str, table: &'static [MethodInfo]) -> i32 {
    let n = match name {
        "backlog20" => 20,
        "backlog90" => 90,
        "backlog150" => 150,
        _ => {
            eprintln!("unknown history {name}");
            return 2;
        }
    };
    match crate::session::guarded(|| pile(n, table)) {
        Ok(got) => {
            println!("{n} requests written back to back, every server request answered: {got} of them answered");
            (got != n as usize) as i32
        }
        Err(p) => {
            println!("{n} requests written back to back: panic: {p}");
            1
        }
    }
}
