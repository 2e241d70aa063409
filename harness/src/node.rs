//! One node of a distributed system: orders come in as lines, what happens goes out as lines with the time it happened at.
use std::collections::HashMap;
use std::io::BufRead;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::Duration;

use hydra::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use tokio::sync::mpsc;

use crate::app::say;
use crate::core::{rs_of, rs_str};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Ident {
    P(Pid),
    R(Reference),
    N(Node),
    D(Dest),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Payload {
    m: i64,
    pad: String,
    ids: Vec<Ident>,
    /// What a server does with a call.
    act: String,
}

fn pad(m: i64, n: usize) -> String {
    (0..n).map(|i| (b'a' + ((m as usize).wrapping_mul(31).wrapping_add(i * 7) % 26) as u8) as char).collect()
}

#[derive(Default)]
struct World {
    boxes: HashMap<i64, mpsc::UnboundedSender<Value>>,
    pids: HashMap<i64, Pid>,
    refs: HashMap<i64, Reference>,
    store: Vec<Ident>,
    held: HashMap<i64, From>,
}

fn world() -> std::sync::MutexGuard<'static, World> {
    static W: OnceLock<Mutex<World>> = OnceLock::new();
    W.get_or_init(Default::default).lock().unwrap()
}

fn js<T: Serialize>(v: &T) -> Value {
    serde_json::to_value(v).unwrap()
}

fn de<T: for<'a> Deserialize<'a>>(v: &Value) -> T {
    serde_json::from_value(v.clone()).expect("harness: not decodable")
}

fn i(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or(0)
}

fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or("")
}

/// A pid as the driver names it: its serialized form, one of this node by number, or a value received before.
fn pid_of(v: &Value) -> Pid {
    match s(v, "k") {
        "p" => de(&v["v"]),
        "own" => world().pids[&i(v, "a")],
        "st" => match world().store[i(v, "i") as usize].clone() {
            Ident::P(p) | Ident::D(Dest::Pid(p)) => p,
            o => panic!("harness: {o:?} is not a pid"),
        },
        o => panic!("harness: pid {o}"),
    }
}

fn node_of(v: &Value) -> Node {
    match v {
        Value::String(n) => Node::from(n.as_str()),
        _ => match world().store[i(v, "i") as usize].clone() {
            Ident::N(n) => n,
            o => panic!("harness: {o:?} is not a node"),
        },
    }
}

fn dest_of(v: &Value) -> Dest {
    match s(v, "k") {
        "n" if v["node"].is_null() => Dest::from(s(v, "nm").to_string()),
        "n" => Dest::from((s(v, "nm").to_string(), node_of(&v["node"]))),
        "a" => Dest::from(de::<Reference>(&v["v"])),
        "owna" => Dest::from(world().refs[&i(v, "ref")]),
        "st" => match world().store[i(v, "i") as usize].clone() {
            Ident::P(p) => Dest::from(p),
            Ident::R(r) => Dest::from(r),
            Ident::D(d) => d,
            o => panic!("harness: {o:?} is not a destination"),
        },
        _ => Dest::from(pid_of(v)),
    }
}

fn ident_of(v: &Value) -> Ident {
    match s(v, "k") {
        "node" => Ident::N(node_of(&v["node"])),
        "here" => Ident::N(Node::current()),
        "ref" => Ident::R(world().refs[&i(v, "ref")]),
        "refv" => Ident::R(de(&v["v"])),
        "dest" => Ident::D(dest_of(&v["d"])),
        "st" => world().store[i(v, "i") as usize].clone(),
        _ => Ident::P(pid_of(v)),
    }
}

/// Whether two identities are equal, for kinds that can be compared.
fn same(a: &Ident, b: &Ident) -> Option<bool> {
    match (a, b) {
        (Ident::P(x), Ident::P(y)) => Some(x == y),
        (Ident::R(x), Ident::R(y)) => Some(x == y),
        (Ident::N(x), Ident::N(y)) => Some(x == y),
        (Ident::D(x), Ident::D(y)) => Some(x == y),
        (Ident::D(x), Ident::P(y)) | (Ident::P(y), Ident::D(x)) => Some(x == y),
        (Ident::D(x), Ident::R(y)) | (Ident::R(y), Ident::D(x)) => Some(x == y),
        _ => None,
    }
}

fn local(a: &Ident) -> bool {
    match a {
        Ident::P(p) => p.is_local(),
        Ident::R(r) => r.is_local(),
        Ident::N(n) => n.is_local(),
        Ident::D(d) => d.is_local(),
    }
}

fn ref_label(r: Reference) -> i64 {
    world().refs.iter().find(|(_, v)| **v == r).map(|(k, _)| *k).unwrap_or(0)
}

fn set_ref(op: &Value, r: Reference) {
    world().refs.insert(i(op, "ref"), r);
}

struct Gone(i64);

impl Drop for Gone {
    fn drop(&mut self) {
        say(json!({"o":"gone","a":self.0}));
    }
}

fn seen(a: i64, message: Message<Payload>) {
    match message {
        Message::User(p) => {
            let ok = p.pad == pad(p.m, p.pad.len());
            let mut ids = Vec::new();
            for id in &p.ids {
                let mut w = world();
                let n = w.store.len();
                let mut eq = Vec::new();
                let mut ne = Vec::new();
                for (k, o) in w.store.iter().enumerate() {
                    match same(id, o) {
                        Some(true) => eq.push(k),
                        Some(false) => ne.push(k),
                        None => {}
                    }
                }
                // The identities of this node itself.
                let (mut oeq, mut one) = (Vec::new(), Vec::new());
                for (k, pid) in &w.pids {
                    match same(id, &Ident::P(*pid)) {
                        Some(true) => oeq.push(*k),
                        Some(false) => one.push(*k),
                        None => {}
                    }
                }
                w.store.push(id.clone());
                ids.push(json!({"i":n,"loc":local(id),"eq":eq,"ne":ne,"oeq":oeq,"one":one}));
            }
            say(json!({"o":"msg","a":a,"k":"u","m":p.m,"len":p.pad.len(),"ok":ok,"ids":ids}));
        }
        Message::System(SystemMessage::Exit(from, reason)) => {
            say(json!({"o":"msg","a":a,"k":"x","from":js(&from),"rs":rs_str(&reason)}));
        }
        Message::System(SystemMessage::ProcessDown(dest, r, reason)) => {
            say(json!({"o":"msg","a":a,"k":"d","dest":js(&dest),"ref":ref_label(r),"rs":rs_str(&reason)}));
        }
        Message::System(SystemMessage::NodeDown(node, r)) => {
            say(json!({"o":"msg","a":a,"k":"nd","node":format!("{node:?}"),"ref":ref_label(r)}));
        }
    }
}

async fn actor(a: i64, mut rx: mpsc::UnboundedReceiver<Value>, trap: bool) {
    let _gone = Gone(a);
    if trap {
        Process::set_flags(ProcessFlags::TRAP_EXIT);
    }
    world().pids.insert(a, Process::current());
    say(json!({"o":"up","a":a,"pid":js(&Process::current())}));
    loop {
        let op = tokio::select! {
            m = Process::receive::<Payload>() => {
                seen(a, m);
                continue;
            }
            o = rx.recv() => o.unwrap(),
        };
        let c = op["c"].clone();
        say(json!({"o":"call","a":a,"c":c}));
        let r = match s(&op, "op") {
            "ret" => return,
            "panic" => std::panic::panic_any("to order".to_string()),
            "gcall" => {
                let p = Payload { m: i(&op, "m"), pad: String::new(), ids: vec![], act: s(&op, "act").into() };
                match Server::call(dest_of(&op["d"]), p, Some(Duration::from_millis(i(&op, "to") as u64))).await {
                    Ok(p) => json!({"k":"ok","m":p.m}),
                    Err(CallError::Timeout(_)) => json!({"k":"timeout"}),
                    Err(CallError::ServerDown(r)) => json!({"k":"down","rs":rs_str(&r)}),
                }
            }
            "alias" => {
                let r = Process::alias(op["reply"] == true);
                set_ref(&op, r);
                js(&r)
            }
            _ => exec(&op),
        };
        say(json!({"o":"ret","a":a,"c":c,"r":r}));
    }
}

fn exec(op: &Value) -> Value {
    match s(op, "op") {
        "send" => {
            let m = i(op, "m");
            let ids = op["ids"].as_array().map(|v| v.iter().map(ident_of).collect()).unwrap_or_default();
            let p = Payload { m, pad: pad(m, i(op, "len") as usize), ids, act: String::new() };
            let d: Vec<Dest> = op["ds"].as_array().unwrap().iter().map(dest_of).collect();
            if d.len() == 1 && op["list"] != true {
                Process::send(d[0].clone(), p);
            } else {
                Process::send(Dests::Dests(d), p);
            }
        }
        "cast" => {
            Server::cast(dest_of(&op["d"]), Payload { m: i(op, "m"), pad: String::new(), ids: vec![], act: s(op, "act").into() });
        }
        "link" => Process::link(pid_of(&op["p"])),
        "unlink" => Process::unlink(pid_of(&op["p"])),
        "exit" => Process::exit(pid_of(&op["p"]), rs_of(s(op, "rs"))),
        "mon" => {
            // The label must be known when the down message arrives, which is not before this process receives again.
            let r = Process::monitor(dest_of(&op["d"]));
            set_ref(op, r);
        }
        "demon" => {
            let r = world().refs[&i(op, "ref")];
            Process::demonitor(r);
        }
        "unalias" => {
            let r = world().refs[&i(op, "ref")];
            return json!(Process::unalias(r));
        }
        "nodemon" => {
            let r = Node::monitor(node_of(&op["n"]));
            set_ref(op, r);
        }
        "nodedemon" => {
            let r = world().refs[&i(op, "ref")];
            Node::demonitor(r);
        }
        "connect" => Node::connect(node_of(&op["n"])),
        "disconnect" => Node::disconnect(node_of(&op["n"])),
        "forget" => Node::forget(node_of(&op["n"])),
        "trap" => Process::set_flags(if op["v"] == true { ProcessFlags::TRAP_EXIT } else { ProcessFlags::empty() }),
        "reg" => return json!(Process::register(Process::current(), s(op, "nm")).is_ok()),
        "cookie" => match op["v"].as_str() {
            Some(c) => Node::set_cookie(c),
            None => Node::clear_cookie(),
        },
        "start" => {
            let addr = |k: &str| std::net::SocketAddr::from(([127, 0, 0, 1], i(op, k) as u16));
            let mut o = NodeOptions::new().listen_address(addr("listen"));
            // The order in which the options are set must not matter.
            let ms = |k: &str| Duration::from_millis(i(op, k) as u64);
            for k in op["opts"].as_array().unwrap() {
                o = match k.as_str().unwrap() {
                    "hs" => o.handshake_timeout(ms("hs")),
                    "int" => o.heartbeat_interval(ms("int")),
                    "to" => o.heartbeat_timeout(ms("to")),
                    k => panic!("harness: option {k}"),
                };
            }
            Node::start(s(op, "name"), o.broadcast_address(addr("bcast")));
        }
        "stop" => Node::stop(),
        "spawn" => {
            let a = i(op, "id");
            let (tx, rx) = mpsc::unbounded_channel();
            world().boxes.insert(a, tx);
            Process::spawn(actor(a, rx, op["trap"] == true));
        }
        "pids" => {
            let w = world();
            return json!(w.pids.iter().map(|(k, v)| (k.to_string(), js(v))).collect::<HashMap<_, _>>());
        }
        "snap" => return snap(),
        o => panic!("harness: op {o}"),
    }
    Value::Null
}

fn snap() -> Value {
    let names = |s: NodeState| Node::list_by_state(s).iter().map(|n| format!("{n:?}")).collect::<Vec<_>>();
    let pids = world().pids.clone();
    let mut info = Vec::new();
    for (a, pid) in pids {
        if a == 0 {
            continue;
        }
        if let Some(x) = Process::info(pid) {
            info.push(json!({"a":a,"trap":x.trap_exit,"nm":x.registered_name.unwrap_or_default(),
                "links":x.links.iter().map(js).collect::<Vec<_>>(),"monby":x.monitored_by.iter().map(js).collect::<Vec<_>>()}));
        }
    }
    json!({"on":Node::alive(),"all":Node::list().iter().map(|n| format!("{n:?}")).collect::<Vec<_>>(),
        "cur":names(NodeState::Current),"known":names(NodeState::Known),"conn":names(NodeState::Connected),"pend":names(NodeState::Pending),"info":info})
}

struct Server {
    id: i64,
    _gone: Gone,
}

impl GenServer for Server {
    type Message = Payload;

    async fn init(&mut self) -> Result<(), ExitReason> {
        world().pids.insert(self.id, Process::current());
        say(json!({"o":"up","a":self.id,"pid":js(&Process::current())}));
        Ok(())
    }
    async fn handle_call(&mut self, p: Payload, from: From) -> Result<Option<Payload>, ExitReason> {
        world().held.insert(p.m, from);
        say(json!({"o":"srv","a":self.id,"k":"call","m":p.m}));
        match p.act.as_str() {
            "reply" => Ok(Some(Payload { m: p.m + 1000, ..p })),
            "hold" => Ok(None),
            "stop" => Err(ExitReason::from("halt")),
            _ => std::panic::panic_any("to order".to_string()),
        }
    }
    async fn handle_cast(&mut self, p: Payload) -> Result<(), ExitReason> {
        say(json!({"o":"srv","a":self.id,"k":"cast","m":p.m}));
        if let Some(k) = p.act.strip_prefix("late ") {
            let from = world().held.get(&k.parse::<i64>().unwrap()).copied();
            if let Some(from) = from {
                Server::reply(from, Payload { m: k.parse::<i64>().unwrap() + 1000, pad: String::new(), ids: vec![], act: String::new() });
            }
        }
        Ok(())
    }
    async fn handle_info(&mut self, info: Message<Payload>) -> Result<(), ExitReason> {
        seen(self.id, info);
        Ok(())
    }
}

/// Does what concerns the whole node.
async fn admin(mut rx: mpsc::UnboundedReceiver<Value>) {
    while let Some(op) = rx.recv().await {
        let c = op["c"].clone();
        say(json!({"o":"call","a":0,"c":c}));
        let r = match s(&op, "op") {
            "server" => {
                let id = i(&op, "id");
                let r = Server { id, _gone: Gone(id) }.start(GenServerOptions::new()).await;
                json!(r.is_ok())
            }
            _ => exec(&op),
        };
        say(json!({"o":"ret","a":0,"c":c,"r":r}));
    }
}

pub fn main() {
    static N: AtomicI64 = AtomicI64::new(0);
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(2)
        .thread_name_fn(|| format!("w{}", N.fetch_add(1, Ordering::Relaxed)))
        .enable_all()
        .build()
        .unwrap();
    let (tx, rx) = mpsc::unbounded_channel();
    world().boxes.insert(0, tx);
    rt.spawn(async move {
        Process::spawn(admin(rx));
    });
    let lines = std::io::stdin().lock().lines();
    for l in lines {
        let Ok(l) = l else { break };
        let op: Value = serde_json::from_str(&l).expect("harness: order");
        let b = world().boxes.get(&i(&op, "a")).cloned();
        // Orders to one that is gone are dropped.
        if let Some(b) = b {
            let _ = b.send(op);
        }
    }
    std::process::exit(0);
}
