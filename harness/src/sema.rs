//! Semaphores and tasks.
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use hydra::*;
use serde_json::{json, Value};
use tokio::sync::{mpsc, Notify};

use crate::core::Ctx;

#[allow(dead_code)]
enum Permit {
    S(SemaphorePermit<'static>),
    O(OwnedSemaphorePermit),
}

enum Msg {
    Op(Value),
    Take(i64, Permit),
}

#[derive(Default)]
struct T {
    tx: HashMap<i64, mpsc::UnboundedSender<Msg>>,
    pid: HashMap<i64, Pid>,
    task: HashMap<i64, TaskHandle<i64>>,
    cancel: HashMap<i64, Arc<Notify>>,
    s: Option<&'static Semaphore>,
    o: Option<&'static OwnedSemaphore>,
}

struct X {
    ctx: Arc<Ctx>,
    t: Mutex<T>,
}

fn n(op: &Value, k: &str) -> i64 {
    op[k].as_i64().unwrap_or(0)
}

async fn acquire(x: Arc<X>, op: Value) -> Permit {
    let c = n(&op, "n") as u32;
    if n(&op, "s") == 1 {
        let s = x.t.lock().unwrap().s.unwrap();
        Permit::S(if c == 1 && op["m"].as_bool() != Some(true) { s.acquire().await } else { s.acquire_many(c).await })
    } else {
        let o = x.t.lock().unwrap().o.unwrap();
        match (op["own"].as_bool() == Some(true), c == 1 && op["m"].as_bool() != Some(true)) {
            (true, true) => Permit::O(o.acquire_owned().await),
            (true, false) => Permit::O(o.acquire_many_owned(c).await),
            (false, true) => Permit::S(o.acquire().await),
            (false, false) => Permit::S(o.acquire_many(c).await),
        }
    }
}

fn spawn(x: &Arc<X>, op: &Value) {
    let c = n(op, "c");
    let (tx, rx) = mpsc::unbounded_channel();
    x.t.lock().unwrap().tx.insert(c, tx);
    match op["k"].as_str().unwrap() {
        "p" => {
            let x2 = x.clone();
            let pid = Process::spawn(async move {
                actor(x2, c, rx).await;
            });
            x.t.lock().unwrap().pid.insert(c, pid);
        }
        "t" => {
            let h = Task::spawn(actor(x.clone(), c, rx));
            x.t.lock().unwrap().task.insert(c, h);
        }
        _ => {
            let x2 = x.clone();
            let (up, started) = std::sync::mpsc::channel::<()>();
            let mut rx = rx;
            let h = Task::spawn_blocking(move || {
                let _ = up.send(());
                drop(up);
                while let Some(m) = rx.blocking_recv() {
                    if let Msg::Op(op) = m {
                        if op["o"] == "ret" {
                            return ret(&x2, c, &op);
                        }
                    }
                }
                0
            });
            started.recv().unwrap();
            x.t.lock().unwrap().task.insert(c, h);
        }
    }
    x.ctx.push(json!({"o":"spawn","p":0,"c":c,"k":op["k"],"r":0}));
}

fn ret(x: &Arc<X>, p: i64, op: &Value) -> i64 {
    x.ctx.push(json!({"o":"ret","p":p,"v":op["v"],"r":0}));
    let v = n(op, "v");
    if v == -1 {
        panic!("to order");
    }
    v
}

async fn wait_tasks(x: &Arc<X>, p: i64, op: &Value) {
    let l: Vec<i64> = op["l"].as_array().unwrap().iter().map(|q| q.as_i64().unwrap()).collect();
    let mut hs = vec![];
    {
        let mut t = x.t.lock().unwrap();
        if !l.iter().all(|q| t.task.contains_key(q)) {
            return;
        }
        for q in &l {
            hs.push(t.task.remove(q).unwrap());
        }
    }
    x.ctx.push(json!({"o":op["o"],"p":p,"l":l,"r":0}));
    let one = |r: Result<i64, TaskError>| match r {
        Ok(v) => vec![v],
        Err(_) => vec![-1],
    };
    let many = |r: Result<Vec<i64>, TaskError>| match r {
        Ok(v) => v,
        Err(_) => vec![-1],
    };
    let r = if op["o"] == "shut" {
        one(Task::shutdown(hs.pop().unwrap()).await)
    } else if l.len() == 1 && op["m"].as_bool() != Some(true) {
        one(hs.pop().unwrap().await)
    } else {
        let mut i = hs.into_iter();
        let mut h = || i.next().unwrap();
        match l.len() {
            0 => many(Task::await_many::<i64, 0>([]).await),
            1 => many(Task::await_many([h()]).await),
            2 => many(Task::await_many([h(), h()]).await),
            _ => many(Task::await_many([h(), h(), h()]).await),
        }
    };
    x.ctx.push(json!({"o":"awd","p":p,"r":r}));
}

async fn actor(x: Arc<X>, p: i64, mut rx: mpsc::UnboundedReceiver<Msg>) -> i64 {
    let mut held: HashMap<i64, Permit> = HashMap::new();
    while let Some(m) = rx.recv().await {
        let op = match m {
            Msg::Take(id, permit) => {
                held.insert(id, permit);
                continue;
            }
            Msg::Op(op) => op,
        };
        let id = n(&op, "id");
        match op["o"].as_str().unwrap() {
            "req" => {
                let c = Arc::new(Notify::new());
                x.t.lock().unwrap().cancel.insert(id, c.clone());
                x.ctx.push(json!({"o":"req","p":p,"id":id,"s":op["s"],"n":op["n"],"r":0}));
                let got = if op["cf"].as_bool() == Some(true) {
                    tokio::select! { biased; _ = c.notified() => None, g = acquire(x.clone(), op.clone()) => Some(g) }
                } else {
                    tokio::select! { biased; g = acquire(x.clone(), op.clone()) => Some(g), _ = c.notified() => None }
                };
                match got {
                    Some(g) => {
                        x.ctx.push(json!({"o":"got","p":p,"id":id,"r":0}));
                        held.insert(id, g);
                    }
                    None => x.ctx.push(json!({"o":"can","p":p,"id":id,"r":0})),
                }
            }
            "try" => {
                let (s, o) = {
                    let t = x.t.lock().unwrap();
                    (t.s.unwrap(), t.o.unwrap())
                };
                let g = if n(&op, "s") == 1 {
                    s.try_acquire().ok().map(Permit::S)
                } else if op["own"].as_bool() == Some(true) {
                    o.try_acquire_owned().ok().map(Permit::O)
                } else {
                    o.try_acquire().ok().map(Permit::S)
                };
                x.ctx.push(json!({"o":"try","p":p,"id":id,"s":op["s"],"r":g.is_some() as i64}));
                if let Some(g) = g {
                    held.insert(id, g);
                }
            }
            "rel" => {
                if let Some(g) = held.remove(&id) {
                    drop(g);
                    x.ctx.push(json!({"o":"rel","p":p,"id":id,"r":0}));
                }
            }
            "give" => {
                let q = n(&op, "q");
                let tx = x.t.lock().unwrap().tx.get(&q).cloned();
                if let (Some(tx), true) = (tx, held.contains_key(&id)) {
                    let g = held.remove(&id).unwrap();
                    x.ctx.push(json!({"o":"give","p":p,"id":id,"q":q,"r":0}));
                    let _ = tx.send(Msg::Take(id, g));
                }
            }
            "aw" | "shut" => wait_tasks(&x, p, &op).await,
            "ret" => return ret(&x, p, &op),
            o => panic!("harness: {o}"),
        }
    }
    std::future::pending::<i64>().await
}

pub fn run_script(script: &Value) -> Value {
    let q = crate::rt::QRt::new(true);
    let h = q.handle();
    let _enter = h.enter();
    let ctx = Ctx::new("x".into(), false, vec![h.clone()]);
    crate::watch::set_current(script["id"].clone(), ctx.clone());
    let x = Arc::new(X { ctx: ctx.clone(), t: Mutex::new(T::default()) });
    {
        let (a, b) = (n(script, "s1"), n(script, "s2"));
        let mut t = x.t.lock().unwrap();
        t.s = Some(Box::leak(Box::new(Semaphore::new(a as usize))));
        t.o = Some(Box::leak(Box::new(OwnedSemaphore::new(b as usize))));
        ctx.push(json!({"o":"sem","p":0,"s":1,"n":a,"r":0}));
        ctx.push(json!({"o":"sem","p":0,"s":2,"n":b,"r":0}));
    }
    let mut blk: Vec<i64> = vec![];
    for step in script["steps"].as_array().unwrap() {
        crate::watch::beat();
        for op in step.as_array().unwrap() {
            match op["o"].as_str().unwrap() {
                "spawn" => {
                    if op["k"] == "b" {
                        blk.push(n(op, "c"));
                    }
                    spawn(&x, op);
                }
                "kill" => {
                    let q = n(op, "q");
                    let pid = x.t.lock().unwrap().pid.get(&q).copied();
                    if let Some(pid) = pid {
                        let ctx = ctx.clone();
                        Process::spawn(async move {
                            Process::exit(pid, ExitReason::Kill);
                            ctx.push(json!({"o":"kill","p":0,"q":q,"r":0}));
                        });
                    }
                }
                "cancel" => {
                    let c = x.t.lock().unwrap().cancel.get(&n(op, "id")).cloned();
                    if let Some(c) = c {
                        c.notify_one();
                    }
                }
                "drop" => {
                    let t = x.t.lock().unwrap().task.remove(&n(op, "q"));
                    drop(t);
                }
                _ => {
                    let tx = x.t.lock().unwrap().tx.get(&n(op, "p")).cloned();
                    if let Some(tx) = tx {
                        let _ = tx.send(Msg::Op(op.clone()));
                    }
                }
            }
        }
        q.run_idle();
        ctx.push(json!({"o":"quiet","p":0}));
    }
    // Blocking tasks end in their own time.
    let waiting = |ctx: &Ctx| {
        let log = ctx.log.lock().unwrap();
        let mut open: HashMap<i64, Vec<i64>> = HashMap::new();
        let mut ended = vec![];
        for e in log.iter() {
            match e["o"].as_str().unwrap() {
                "aw" | "shut" => {
                    open.insert(n(e, "p"), e["l"].as_array().unwrap().iter().map(|q| q.as_i64().unwrap()).collect());
                }
                "awd" => {
                    open.remove(&n(e, "p"));
                }
                "ret" => ended.push(n(e, "p")),
                "kill" => {
                    open.remove(&n(e, "q"));
                }
                _ => {}
            }
        }
        open.values().any(|l| l.iter().any(|q| blk.contains(q) && ended.contains(q)))
    };
    if !blk.is_empty() {
        // Whatever they were asked to do has begun.
        let until = crate::clock::real_ms() + 10_000;
        let asked: Vec<i64> = script["steps"].as_array().unwrap().iter().flat_map(|s| s.as_array().unwrap().iter())
            .filter(|o| o["o"] == "ret" && blk.contains(&n(o, "p"))).map(|o| n(o, "p")).collect();
        while crate::clock::real_ms() < until {
            let missing = {
                let log = ctx.log.lock().unwrap();
                asked.iter().any(|q| !log.iter().any(|e| e["o"] == "ret" && n(e, "p") == *q))
            };
            q.run_idle();
            if !missing && !waiting(&ctx) {
                break;
            }
            std::thread::sleep(Duration::from_millis(1));
            crate::watch::beat();
        }
        std::thread::sleep(Duration::from_millis(1));
        q.run_idle();
    }
    ctx.push(json!({"o":"final","p":0}));
    let ev = std::mem::take(&mut *ctx.log.lock().unwrap());
    let pids: Vec<Pid> = x.t.lock().unwrap().pid.values().copied().collect();
    Process::spawn(async move {
        for p in pids {
            Process::exit(p, ExitReason::Kill);
        }
    });
    x.t.lock().unwrap().tx.clear();
    q.run_idle();
    json!({"id":script["id"],"ev":ev})
}
