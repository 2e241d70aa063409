//! Registries whose start functions are scripted.
use std::sync::Arc;
use std::time::Duration;

use hydra::*;
use serde_json::{json, Value};

use crate::core::{i, rs_str, st, Ctx};
use crate::sup::{start_child, SyncFut};

/// A key is written REGISTRY.TYPEvalue
pub fn key(s: &str) -> RegistryKey {
    let k = s.split_once('.').unwrap().1;
    let n = k[1..].parse::<i64>().unwrap_or(0);
    match &k[..1] {
        "i" => (n as i32).into(),
        "l" => n.into(),
        "h" => (n as i128).into(),
        "q" => (n as u32).into(),
        "u" => (n as u64).into(),
        "v" => (n as u128).into(),
        _ => k[1..].into(),
    }
}

fn unkey(reg: &str, k: &RegistryKey) -> String {
    let t = match k {
        RegistryKey::Integer32(n) => format!("i{n}"),
        RegistryKey::Integer64(n) => format!("l{n}"),
        RegistryKey::Integer128(n) => format!("h{n}"),
        RegistryKey::UInteger32(n) => format!("q{n}"),
        RegistryKey::UInteger64(n) => format!("u{n}"),
        RegistryKey::UInteger128(n) => format!("v{n}"),
        RegistryKey::String(s) => format!("s{s}"),
    };
    format!("{reg}.{t}")
}

fn make(ctx: &Arc<Ctx>, op: &Value) -> (Registry, RegistryOptions) {
    let c = i(op, "c");
    let n = st(op, "n").to_string();
    let mut s = Registry::new(ctx.name(&n));
    if op["start"].as_bool().unwrap() {
        let (ctx, starts) = (ctx.clone(), op["starts"].clone());
        s = s.with_start(move |k| {
            let (ctx, id) = (ctx.clone(), unkey(&n, &k));
            let starts = if starts[&id].is_array() { starts[&id].clone() } else { starts["*"].clone() };
            SyncFut(Box::pin(async move { start_child(&ctx, c, &id, &starts).await }))
        });
    }
    s = s.with_shutdown(match i(op, "sh") {
        -2 => Shutdown::BrutalKill,
        -1 => Shutdown::Infinity,
        ms => Shutdown::Duration(Duration::from_millis(ms as u64)),
    });
    (s, RegistryOptions::new())
}

pub async fn regstart(ctx: &Arc<Ctx>, p: i64, op: &Value) -> Result<Pid, ExitReason> {
    let c = i(op, "c");
    let (s, o) = make(ctx, op);
    let mut op = op.clone();
    // The process of a start that fails because of the name stays unknown: it must not be linked.
    if Process::whereis(ctx.name(st(&op, "n"))).is_some() {
        op["link"] = json!(false);
    }
    let mut l = op.clone();
    l.as_object_mut().unwrap().remove("starts");
    ctx.log_op(p, &l, json!("ok"));
    let mut starting = crate::core::Starting(ctx.clone(), c, st(&op, "n").to_string(), false);
    let r = if op["link"].as_bool().unwrap() { s.start_link(o).await } else { s.start(o).await };
    starting.3 = true;
    let res = match &r {
        Ok(pid) => {
            ctx.add_pid(c, *pid);
            if ctx.id(*pid) == c { "ok".into() } else { format!("pid{}", ctx.id(*pid)) }
        }
        Err(e) => rs_str(e),
    };
    ctx.log_op(p, &crate::gs::fin(&op, "gstarted"), json!(res));
    r
}

fn err(e: RegistryError, ctx: &Ctx) -> Value {
    match e {
        RegistryError::CallError(CallError::Timeout(_)) => json!({"k":"timeout"}),
        RegistryError::CallError(CallError::ServerDown(rs)) => json!({"k":"down","rs":rs_str(&rs)}),
        RegistryError::AlreadyStarted(pid) => json!({"k":"already","q":ctx.id(pid)}),
        RegistryError::StartError(rs) => json!({"k":"starterr","rs":rs_str(&rs)}),
        RegistryError::StartNotSupported => json!({"k":"err","e":"not_supported"}),
        RegistryError::NotFound => json!({"k":"err","e":"not_found"}),
    }
}

/// False if it is not an operation on registries.
pub async fn exec_r(ctx: &Arc<Ctx>, p: i64, op: &Value) -> bool {
    match st(op, "o") {
        "regstart" => {
            let _ = regstart(ctx, p, op).await;
        }
        // A value that is never started.
        "regdrop" => {
            drop(make(ctx, op));
        }
        "rcall" => {
            let Some(d) = ctx.dest(&op["dest"]) else { return true };
            let q = &op["req"];
            let ms = op["ms"].as_i64().unwrap_or(-1);
            let tmo = if ms < 0 { None } else { Some(Duration::from_millis(ms as u64)) };
            ctx.log_op(p, op, json!("ok"));
            let reg = st(op, "reg");
            let opt = |r: Result<Option<Pid>, RegistryError>| match r {
                Ok(x) => json!({"k":"pid","q":x.map(|x| ctx.id(x)).unwrap_or(0)}),
                Err(e) => err(e, ctx),
            };
            let pid = |r: Result<Pid, RegistryError>| opt(r.map(Some));
            let k = || key(st(q, "key"));
            let r = match st(q, "k") {
                "lookup" => opt(Registry::lookup(d, k(), tmo).await),
                "los" => pid(Registry::lookup_or_start(d, k(), tmo).await),
                "start" => pid(Registry::start_process(d, k(), tmo).await),
                "remove" => opt(Registry::remove(d, k(), tmo).await),
                "stop" => match Registry::stop_process(d, k(), tmo).await {
                    Ok(()) => json!({"k":"ok"}),
                    Err(e) => err(e, ctx),
                },
                "count" => match Registry::count(d, tmo).await {
                    Ok(n) => json!({"k":"n","n":n}),
                    Err(e) => err(e, ctx),
                },
                "list" => match Registry::list(d, tmo).await {
                    Ok(l) => {
                        let mut l: Vec<(i64, String)> = l.iter().map(|(k, p)| (ctx.id(*p), unkey(reg, k))).collect();
                        l.sort();
                        json!({"k":"list","l":l.iter().map(|(p, k)| json!([k, p])).collect::<Vec<_>>()})
                    }
                    Err(e) => err(e, ctx),
                },
                o => panic!("harness: request {o}"),
            };
            ctx.log_op(p, &crate::gs::fin(op, "rcalled"), r);
        }
        _ => return false,
    }
    true
}
