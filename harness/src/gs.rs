//! GenServers whose callbacks execute scripted operations.
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::Arc;
use std::time::Duration;

use hydra::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::core::{exec, i, rs_of, rs_str, st, Ctx};

/// A message with its number and what the callback that handles it does (JSON).
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct GMsg {
    pub m: i64,
    pub act: String,
}

pub struct Srv {
    pub ctx: Arc<Ctx>,
    pub id: i64,
    pub init: Value,
    pub info: Value,
    pub term: Value,
}

impl Drop for Srv {
    /// A server that never got to its init is known from its end.
    fn drop(&mut self) {
        if self.ctx.pid(self.id).is_none() {
            if let Ok(pid) = catch_unwind(Process::current) {
                self.ctx.add_pid(self.id, pid);
            }
        }
    }
}

type Fut<'a, T> = Pin<Box<dyn Future<Output = T> + Send + 'a>>;

impl Srv {
    /// Runs the operations of a callback; the result it must return.
    fn run<'a>(&'a self, act: &'a Value) -> Fut<'a, Value> {
        Box::pin(async move {
            for op in act["ops"].as_array().map(|v| v.as_slice()).unwrap_or(&[]) {
                exec(&self.ctx, self.id, op).await;
            }
            act["r"].clone()
        })
    }
    fn cb(&self, ev: Value) {
        self.ctx.log_op(self.id, &ev, json!("ok"));
    }
    fn end(&self, res: &Value, call: i64) {
        self.ctx.log_op(self.id, &json!({"o":"cbe","res":res,"call":call}), json!("ok"));
    }
}

fn unit(r: &Value) -> Result<(), ExitReason> {
    match st(r, "k") {
        "ok" => Ok(()),
        "err" => Err(rs_of(st(r, "rs"))),
        o => panic!("harness: result {o}"),
    }
}

impl GenServer for Srv {
    type Message = GMsg;

    async fn init(&mut self) -> Result<(), ExitReason> {
        self.ctx.add_pid(self.id, Process::current());
        self.cb(json!({"o":"cb","kind":"init"}));
        let r = self.run(&self.init).await;
        self.end(&r, 0);
        unit(&r)
    }
    async fn terminate(&mut self, reason: ExitReason) {
        self.cb(json!({"o":"cb","kind":"term","rs":rs_str(&reason)}));
        let r = self.run(&self.term).await;
        self.end(&r, 0);
    }
    async fn handle_cast(&mut self, message: GMsg) -> Result<(), ExitReason> {
        self.cb(json!({"o":"cb","kind":"cast","m":message.m}));
        let act: Value = serde_json::from_str(&message.act).unwrap();
        let r = self.run(&act).await;
        self.end(&r, 0);
        unit(&r)
    }
    async fn handle_info(&mut self, info: Message<GMsg>) -> Result<(), ExitReason> {
        let it = match &info {
            Message::User(u) => json!({"k":"u","ty":"G","m":u.m}),
            Message::System(s) => self.ctx.sys_json(s),
        };
        self.cb(json!({"o":"cb","kind":"info","it":it}));
        let r = self.run(&self.info).await;
        self.end(&r, 0);
        unit(&r)
    }
    async fn handle_call(&mut self, message: GMsg, from: From) -> Result<Option<GMsg>, ExitReason> {
        self.ctx.t.lock().unwrap().froms.insert(message.m, from);
        self.cb(json!({"o":"cb","kind":"call","m":message.m,"from":self.ctx.id(from.pid())}));
        let act: Value = serde_json::from_str(&message.act).unwrap();
        let r = self.run(&act).await;
        self.end(&r, message.m);
        match st(&r, "k") {
            "reply" => Ok(Some(GMsg { m: i(&r, "m"), act: "{}".into() })),
            "noreply" => Ok(None),
            "err" => Err(rs_of(st(&r, "rs"))),
            o => panic!("harness: result {o}"),
        }
    }
}

/// The event that ends an operation, in the same slot of its process.
pub fn fin(op: &Value, o: &str) -> Value {
    match op.get("sl") {
        Some(sl) => json!({"o":o,"sl":sl}),
        None => json!({"o":o}),
    }
}

fn msg(op: &Value) -> GMsg {
    GMsg { m: i(op, "m"), act: op["act"].to_string() }
}

fn strip(op: &Value) -> Value {
    let mut o = op.clone();
    if let Some(m) = o.as_object_mut() {
        m.remove("act");
        m.remove("init");
        m.remove("info");
        m.remove("term");
    }
    o
}

/// Operations of servers and their clients.  False if it is not one.
pub fn exec_g<'a>(ctx: &'a Arc<Ctx>, p: i64, op: &'a Value) -> Fut<'a, bool> {
    Box::pin(async move {
        let ms = op["ms"].as_i64().unwrap_or(-1);
        let tmo = if ms < 0 { None } else { Some(Duration::from_millis(ms as u64)) };
        match st(op, "o") {
            "gstart" => {
                let _ = gstart(ctx, p, op).await;
            }
            "gcall" => {
                let Some(d) = ctx.dest(&op["dest"]) else { return true };
                ctx.log_op(p, &strip(op), json!("ok"));
                let r = Srv::call(d, msg(op), tmo).await;
                let r = match r {
                    Ok(m) => json!({"k":"ok","m":m.m}),
                    Err(CallError::ServerDown(rs)) => json!({"k":"down","rs":rs_str(&rs)}),
                    Err(CallError::Timeout(_)) => json!({"k":"timeout"}),
                };
                ctx.log_op(p, &fin(op, "gcalled"), r);
            }
            "gstop" => {
                let Some(d) = ctx.dest(&op["dest"]) else { return true };
                ctx.log_op(p, &strip(op), json!("ok"));
                let rs = rs_of(st(op, "rs"));
                let r = match op["srv"].as_str() {
                    Some("sup") => Supervisor::stop(d, rs, tmo).await,
                    Some("reg") => Registry::stop(d, rs, tmo).await,
                    _ => Srv::stop(d, rs, tmo).await,
                };
                let r = match r {
                    Ok(()) => "ok".to_string(),
                    Err(rs) => rs_str(&rs),
                };
                ctx.log_op(p, &fin(op, "gstopped"), json!(r));
            }
            "sleep" => {
                ctx.log_op(p, op, json!("ok"));
                Process::sleep(Duration::from_millis(ms as u64)).await;
                ctx.log_op(p, &fin(op, "recvd"), json!({"k":"timeout"}));
            }
            // Several lists of operations executed concurrently by one process.
            "par" => {
                let mut futs: Vec<Fut<()>> = vec![];
                for ops in op["slots"].as_array().unwrap() {
                    futs.push(Box::pin(async move {
                        for op in ops.as_array().unwrap() {
                            exec(ctx, p, op).await;
                        }
                    }));
                }
                let (mut left, mut k) = (futs.len(), i(op, "k") as usize);
                let mut done = vec![false; left];
                std::future::poll_fn(|cx| {
                    // Where it starts differs from time to time.
                    k += 1;
                    for j in 0..futs.len() {
                        let j = (j + k) % futs.len();
                        if !done[j] && futs[j].as_mut().poll(cx).is_ready() {
                            done[j] = true;
                            left -= 1;
                        }
                    }
                    if left == 0 { std::task::Poll::Ready(()) } else { std::task::Poll::Pending }
                })
                .await;
            }
            o => panic!("harness: unknown op {o}"),
        }
        true
    })
}

/// The ones that do not wait.
pub fn exec_g_sync(ctx: &Arc<Ctx>, p: i64, op: &Value) -> bool {
    match st(op, "o") {
        "gcast" | "gcastafter" => {
            let ds: Vec<Option<Dest>> = op["dests"].as_array().unwrap().iter().map(|d| ctx.dest(d)).collect();
            if ds.iter().any(|x| x.is_none()) {
                return true;
            }
            let mut ds: Vec<Dest> = ds.into_iter().flatten().collect();
            let dests: Dests = if ds.len() == 1 { Dests::from(ds.pop().unwrap()) } else { Dests::from(ds) };
            if st(op, "o") == "gcast" {
                Srv::cast(dests, msg(op));
            } else {
                let r = Srv::cast_after(dests, msg(op), Duration::from_millis(i(op, "ms") as u64));
                ctx.add_ref(i(op, "tm"), r);
            }
            ctx.log_op(p, &strip(op), json!("ok"));
        }
        "greply" => {
            let Some(from) = ctx.t.lock().unwrap().froms.get(&i(op, "call")).copied() else { return true };
            let r = catch_unwind(AssertUnwindSafe(|| Srv::reply(from, GMsg { m: i(op, "m"), act: "{}".into() })));
            ctx.log_op(p, op, json!(if r.is_ok() { "ok" } else { "panic" }));
        }
        _ => return false,
    }
    true
}


pub async fn gstart(ctx: &Arc<Ctx>, p: i64, op: &Value) -> Result<Pid, ExitReason> {
    let ms = op["ms"].as_i64().unwrap_or(-1);
    let c = i(op, "c");
    let srv = Srv { ctx: ctx.clone(), id: c, init: op["init"].clone(), info: op["info"].clone(), term: op["term"].clone() };
    let mut o = GenServerOptions::new();
    if ms >= 0 {
        o = o.timeout(Duration::from_millis(ms as u64));
    }
    if st(op, "n") != "" {
        o = o.name(ctx.name(st(op, "n")));
    }
    ctx.log_op(p, &strip(op), json!("ok"));
    let r = if op["link"].as_bool().unwrap() { srv.start_link(o).await } else { srv.start(o).await };
    let res = match &r {
        Ok(pid) => {
            ctx.add_pid(c, *pid);
            if ctx.id(*pid) == c { "ok".into() } else { format!("pid{}", ctx.id(*pid)) }
        }
        Err(e) => rs_str(e),
    };
    ctx.log_op(p, &fin(op, "gstarted"), json!(res));
    r
}
