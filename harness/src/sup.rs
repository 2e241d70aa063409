//! Supervisors whose children are scripted.
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;

use hydra::*;
use serde_json::{json, Value};

use crate::core::{exec, exec_sync, i, rs_of, rs_str, st, Ctx};

/// Start functions must be Sync, which is only a matter of type here: a future is polled by one thread at a time.
pub struct SyncFut<T>(pub Pin<Box<dyn Future<Output = T> + Send>>);
unsafe impl<T> Sync for SyncFut<T> {}
impl<T> Future for SyncFut<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        self.0.as_mut().poll(cx)
    }
}

/// Runs what a start function does, as process p, and logs it.  `id` names the child.
pub async fn start_child(ctx: &Arc<Ctx>, p: i64, id: &str, starts: &Value) -> Result<Pid, ExitReason> {
    // The pid of a process that is still starting is learned here.
    ctx.add_pid(p, Process::current());
    let (n, c) = {
        let mut t = ctx.t.lock().unwrap();
        let n = t.starts.entry(id.to_string()).or_insert(0);
        *n += 1;
        let n = *n;
        t.next += 1;
        let c = 9 + t.next;
        t.kids.insert(id.to_string(), c);
        (n as usize, c)
    };
    let b = starts.as_array().unwrap();
    let b = b[(n - 1).min(b.len() - 1)].clone();
    ctx.log_op(p, &json!({"o":"cs","id":id,"c":c}), json!("ok"));
    for op in b["ops"].as_array().map(|v| v.as_slice()).unwrap_or(&[]) {
        exec(ctx, p, op).await;
    }
    let r = match st(&b, "k") {
        "actor" => {
            exec_sync(ctx, p, &json!({"o":"spawn","c":c,"kind":"link","ref":0,"init":b["body"]}));
            Ok(ctx.pid(c).unwrap())
        }
        "server" => {
            let op = json!({"o":"gstart","c":c,"link":true,"n":b["n"].as_str().unwrap_or(""),"ms":-1,"init":b["init"],"info":b["info"],"term":b["term"]});
            crate::gs::gstart(ctx, p, &op).await
        }
        "sup" => {
            let mut op = b["sup"].clone();
            op["o"] = json!("supstart");
            op["c"] = json!(c);
            op["link"] = json!(true);
            supstart(ctx, p, &op).await
        }
        "reg" => {
            let mut op = b["reg"].clone();
            op["o"] = json!("regstart");
            op["c"] = json!(c);
            op["link"] = json!(true);
            crate::reg::regstart(ctx, p, &op).await
        }
        "err" => Err(rs_of(st(&b, "rs"))),
        o => panic!("harness: start {o}"),
    };
    let res = match &r {
        Ok(_) => json!({"k":"ok","c":c}),
        Err(rs) => json!({"k":"err","rs":rs_str(rs)}),
    };
    ctx.log_op(p, &json!({"o":"csr","id":id,"res":res}), json!("ok"));
    r
}

pub fn strip_spec(k: &Value) -> Value {
    json!({"id":k["id"],"restart":k["restart"],"sh":k["sh"],"sig":k["sig"],"typ":k["typ"]})
}

fn spec(ctx: &Arc<Ctx>, p: i64, k: &Value) -> ChildSpec {
    let (ctx, id, starts) = (ctx.clone(), st(k, "id").to_string(), k["starts"].clone());
    let mut s = ChildSpec::new(st(k, "id"))
        .start(move || {
            let (ctx, id, starts) = (ctx.clone(), id.clone(), starts.clone());
            SyncFut(Box::pin(async move { start_child(&ctx, p, &id, &starts).await }))
        })
        .restart(match st(k, "restart") {
            "permanent" => Restart::Permanent,
            "transient" => Restart::Transient,
            _ => Restart::Temporary,
        })
        .child_type(if st(k, "typ") == "worker" { ChildType::Worker } else { ChildType::Supervisor });
    if k["sig"].as_bool().unwrap() {
        s = s.significant(true);
    }
    match i(k, "sh") {
        -3 => s,
        -2 => s.shutdown(Shutdown::BrutalKill),
        -1 => s.shutdown(Shutdown::Infinity),
        ms => s.shutdown(Duration::from_millis(ms as u64)),
    }
}

pub async fn supstart(ctx: &Arc<Ctx>, p: i64, op: &Value) -> Result<Pid, ExitReason> {
    let c = i(op, "c");
    let mut s = Supervisor::new();
    for k in op["kids"].as_array().unwrap() {
        s = s.add_child(spec(ctx, c, k));
    }
    let s = s
        .strategy(match st(op, "strat") {
            "one_for_one" => SupervisionStrategy::OneForOne,
            "one_for_all" => SupervisionStrategy::OneForAll,
            _ => SupervisionStrategy::RestForOne,
        })
        .auto_shutdown(match st(op, "auto") {
            "never" => AutoShutdown::Never,
            "any" => AutoShutdown::AnySignificant,
            _ => AutoShutdown::AllSignificant,
        })
        .max_restarts(i(op, "maxr") as usize)
        .max_duration(Duration::from_millis(i(op, "maxd") as u64));
    let mut o = SupervisorOptions::new();
    if st(op, "n") != "" {
        o = o.name(ctx.name(st(op, "n")));
    }
    if i(op, "ms") >= 0 {
        o = o.timeout(Duration::from_millis(i(op, "ms") as u64));
    }
    let mut l = op.clone();
    l["kids"] = op["kids"].as_array().unwrap().iter().map(strip_spec).collect();
    ctx.log_op(p, &l, json!("ok"));
    let mut starting = crate::core::Starting(ctx.clone(), c, st(op, "n").to_string(), false);
    let r = if op["link"].as_bool().unwrap() { s.start_link(o).await } else { s.start(o).await };
    starting.3 = true;
    let res = match &r {
        Ok(pid) => {
            ctx.add_pid(c, *pid);
            if ctx.id(*pid) == c { "ok".into() } else { format!("pid{}", ctx.id(*pid)) }
        }
        Err(e) => rs_str(e),
    };
    ctx.log_op(p, &crate::gs::fin(op, "gstarted"), json!(res));
    r
}

fn err(e: SupervisorError) -> Value {
    match e {
        SupervisorError::CallError(CallError::Timeout(_)) => json!({"k":"timeout"}),
        SupervisorError::CallError(CallError::ServerDown(rs)) => json!({"k":"down","rs":rs_str(&rs)}),
        SupervisorError::AlreadyStarted => json!({"k":"err","e":"already_started"}),
        SupervisorError::AlreadyPresent => json!({"k":"err","e":"already_present"}),
        SupervisorError::StartError(rs) => json!({"k":"starterr","rs":rs_str(&rs)}),
        SupervisorError::NotFound => json!({"k":"err","e":"not_found"}),
        SupervisorError::Running => json!({"k":"err","e":"running"}),
        SupervisorError::Restarting => json!({"k":"err","e":"restarting"}),
    }
}

/// Operations of the clients of supervisors.  False if it is not one.
pub async fn exec_s(ctx: &Arc<Ctx>, p: i64, op: &Value) -> bool {
    match st(op, "o") {
        "supstart" => {
            let _ = supstart(ctx, p, op).await;
        }
        "scall" => {
            let Some(d) = ctx.dest(&op["dest"]) else { return true };
            let q = &op["req"];
            let mut l = op.clone();
            if q["spec"].is_object() {
                l["req"]["spec"] = strip_spec(&q["spec"]);
            }
            // The start function of a new child runs in the supervisor.
            let sp = op["dest"][1].as_i64().unwrap();
            ctx.log_op(p, &l, json!("ok"));
            let pid = |r: Result<Option<Pid>, SupervisorError>| match r {
                Ok(x) => json!({"k":"pid","q":x.map(|x| ctx.id(x)).unwrap_or(0)}),
                Err(e) => err(e),
            };
            let unit = |r: Result<(), SupervisorError>| match r {
                Ok(()) => json!({"k":"ok"}),
                Err(e) => err(e),
            };
            let id = || st(q, "id").to_string();
            let r = match st(q, "k") {
                "start" => pid(Supervisor::start_child(d, spec(ctx, sp, &q["spec"])).await),
                "restart" => pid(Supervisor::restart_child(d, id()).await),
                "term" => unit(Supervisor::terminate_child(d, id()).await),
                "delete" => unit(Supervisor::delete_child(d, id()).await),
                "count" => match Supervisor::count_children(d).await {
                    Ok(c) => json!({"k":"count","specs":c.specs,"active":c.active,"sups":c.supervisors,"works":c.workers}),
                    Err(e) => err(e),
                },
                "which" => match Supervisor::which_children(d).await {
                    Ok(v) => json!({"k":"which","l":v.iter().map(|x| which(ctx, x)).collect::<Vec<_>>()}),
                    Err(e) => err(e),
                },
                o => panic!("harness: request {o}"),
            };
            ctx.log_op(p, &crate::gs::fin(op, "scalled"), r);
        }
        _ => return false,
    }
    true
}

/// The fields of the information are not public, but it can be serialized.
fn which(ctx: &Ctx, x: &SupervisorChildInfo) -> Value {
    let v = serde_json::to_value(x).unwrap();
    let q = if v["child"].is_null() {
        0
    } else {
        let t = ctx.t.lock().unwrap();
        t.ids.iter().find(|(p, _)| serde_json::to_value(p).unwrap() == v["child"]).map(|(_, i)| *i).unwrap_or(-1)
    };
    json!([v["id"], q, if v["child_type"] == json!("Worker") { "worker" } else { "supervisor" }, v["restarting"]])
}
