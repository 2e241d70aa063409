//! Interpreter for scripts over the process runtime: actors are real hydra processes that execute operations.
use std::collections::HashMap;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::Poll;
use std::time::Duration;

use hydra::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use tokio::sync::mpsc;

/// Structured message content, fully determined by its number.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Rich {
    pub m: i64,
    pub text: String,
    pub bytes: Vec<u8>,
    pub opt: Option<(u32, f64)>,
    pub map: std::collections::BTreeMap<String, i64>,
}

pub fn rich(m: i64) -> Rich {
    Rich {
        m,
        text: format!("message number {m} \u{1F980}"),
        bytes: (0..(m % 300)).map(|x| (x * 7 % 256) as u8).collect(),
        opt: if m % 2 == 0 { Some((m as u32, m as f64 / 3.0)) } else { None },
        map: (0..(m % 4)).map(|i| (format!("k{i}"), i * m)).collect(),
    }
}

pub trait Payload: Receivable {
    const TY: &'static str;
    fn make(m: i64) -> Self;
    /// The number, or -99 if the content is damaged.
    fn num(&self) -> i64;
}
impl Payload for String {
    const TY: &'static str = "S";
    fn make(m: i64) -> Self {
        format!("m{m}")
    }
    fn num(&self) -> i64 {
        self.strip_prefix('m').and_then(|x| x.parse().ok()).unwrap_or(-99)
    }
}
impl Payload for u64 {
    const TY: &'static str = "U";
    fn make(m: i64) -> Self {
        m as u64
    }
    fn num(&self) -> i64 {
        *self as i64
    }
}
impl Payload for Rich {
    const TY: &'static str = "R";
    fn make(m: i64) -> Self {
        rich(m)
    }
    fn num(&self) -> i64 {
        if *self == rich(self.m) {
            self.m
        } else {
            -99
        }
    }
}

#[derive(Default)]
pub struct Tables {
    pub pids: HashMap<i64, Pid>,
    pub ids: HashMap<Pid, i64>,
    pub refs: HashMap<i64, Reference>,
    pub refids: HashMap<Reference, i64>,
    pub froms: HashMap<i64, hydra::From>,
    /// Children of supervisors: the number of the latest process of each, how often each was started, numbers given.
    pub kids: HashMap<String, i64>,
    pub starts: HashMap<String, i64>,
    pub next: i64,
    /// Starts whose starter was killed before it learned the pid: the process and its name, if it has one.
    pub lost: Vec<(i64, String)>,
    pub actors: HashMap<i64, mpsc::UnboundedSender<Vec<Value>>>,
}

pub struct Ctx {
    pub prefix: String,
    /// Log begin and end of every operation (concurrent executions).
    pub conc: bool,
    pub log: Mutex<Vec<Value>>,
    pub t: Mutex<Tables>,
    pub handles: Vec<tokio::runtime::Handle>,
}

/// Dropped before the end of a start: the process that is started has to be found in another way.
pub struct Starting(pub std::sync::Arc<Ctx>, pub i64, pub String, pub bool);
impl Drop for Starting {
    fn drop(&mut self) {
        if !self.3 {
            self.0.t.lock().unwrap().lost.push((self.1, std::mem::take(&mut self.2)));
        }
    }
}

pub fn rs_str(r: &ExitReason) -> String {
    match r {
        // A server whose starter has gone.
        ExitReason::Custom(c) if c.starts_with("Failed to notify parent process!") => "c:notify".into(),
        ExitReason::Normal => "normal".into(),
        ExitReason::Kill => "kill".into(),
        ExitReason::Ignore => "ignore".into(),
        ExitReason::Custom(c) => format!("c:{c}"),
    }
}

pub fn rs_of(s: &str) -> ExitReason {
    match s {
        "normal" => ExitReason::Normal,
        "kill" => ExitReason::Kill,
        "ignore" => ExitReason::Ignore,
        _ => ExitReason::Custom(s[2..].to_string()),
    }
}

fn merge(mut a: Value, k: &str, v: Value) -> Value {
    a[k] = v;
    a
}

impl Ctx {
    pub fn new(prefix: String, conc: bool, handles: Vec<tokio::runtime::Handle>) -> Arc<Self> {
        Arc::new(Ctx { prefix, conc, log: Mutex::new(vec![]), t: Mutex::new(Tables::default()), handles })
    }
    pub fn push(&self, v: Value) {
        self.log.lock().unwrap().push(v);
    }
    /// Time passed; steps with nothing observed in between are merged.
    pub fn push_adv(&self, now: i64, by: i64) {
        let mut log = self.log.lock().unwrap();
        match log.last_mut() {
            Some(e) if e["o"] == "adv" && e["by"] == by => e["now"] = json!(now),
            _ => log.push(json!({"o":"adv","now":now,"by":by})),
        }
    }
    fn begin(&self, p: i64, op: &Value) {
        if self.conc {
            let ev = merge(merge(op.clone(), "p", json!(p)), "e", json!("b"));
            self.push(ev);
        }
    }
    fn end(&self, p: i64, op: &Value, r: Value) {
        if self.conc {
            self.push(json!({"e":"e","p":p,"r":r}));
        } else {
            self.push(merge(merge(op.clone(), "p", json!(p)), "r", r));
        }
    }
    /// Logs an operation and its result.
    pub fn log_op(&self, p: i64, op: &Value, r: Value) {
        self.push(merge(merge(op.clone(), "p", json!(p)), "r", r));
    }
    pub fn pid(&self, id: i64) -> Option<Pid> {
        self.t.lock().unwrap().pids.get(&id).copied()
    }
    pub fn id(&self, pid: Pid) -> i64 {
        self.t.lock().unwrap().ids.get(&pid).copied().unwrap_or(-1)
    }
    pub fn add_pid(&self, id: i64, pid: Pid) {
        let mut t = self.t.lock().unwrap();
        // A pid that was seen before under another id is reported as the earlier id.
        if !t.ids.contains_key(&pid) {
            t.ids.insert(pid, id);
        }
        t.pids.insert(id, pid);
    }
    pub fn add_ref(&self, id: i64, r: Reference) {
        let mut t = self.t.lock().unwrap();
        t.refs.insert(id, r);
        t.refids.insert(r, id);
    }
    /// Finds the processes of starts nobody has seen the end of.
    fn find_lost(&self, baseline: &std::collections::HashSet<Pid>) {
        let lost = std::mem::take(&mut self.t.lock().unwrap().lost);
        let unknown: Vec<Pid> = Process::list().into_iter().filter(|q| !baseline.contains(q) && self.id(*q) < 0).collect();
        let mut left = vec![];
        for (c, n) in lost {
            match (!n.is_empty()).then(|| Process::whereis(self.name(&n))).flatten() {
                Some(q) if self.id(q) < 0 => self.add_pid(c, q),
                _ => left.push((c, n)),
            }
        }
        let unknown: Vec<Pid> = unknown.into_iter().filter(|q| self.id(*q) < 0).collect();
        left.retain(|(c, _)| self.pid(*c).is_none());
        if let ([q], [(c, _)]) = (&unknown[..], &left[..]) {
            self.add_pid(*c, *q);
        }
    }
    fn refr(&self, id: i64) -> Option<Reference> {
        self.t.lock().unwrap().refs.get(&id).copied()
    }
    pub fn name(&self, n: &str) -> String {
        format!("{}{}", self.prefix, n)
    }
    fn unname(&self, n: &str) -> String {
        n.strip_prefix(&self.prefix).map(|x| x.to_string()).unwrap_or_else(|| "?".into())
    }
    pub fn dest(&self, d: &Value) -> Option<Dest> {
        match d[0].as_str().unwrap() {
            "pid" => self.pid(d[1].as_i64().unwrap()).map(Dest::from),
            "name" => Some(Dest::from(self.name(d[2].as_str().unwrap()))),
            "alias" => self.refr(d[1].as_i64().unwrap()).map(Dest::from),
            _ => unreachable!(),
        }
    }
    fn dest_json(&self, d: &Dest) -> Value {
        match d {
            Dest::Pid(p) => json!(["pid", self.id(*p), ""]),
            Dest::Named(n, node) if *node == Node::Local => json!(["name", 0, self.unname(n)]),
            Dest::Named(_, _) => json!(["name", -1, "?"]),
            Dest::Alias(r) => json!(["alias", self.t.lock().unwrap().refids.get(r).copied().unwrap_or(-1), ""]),
        }
    }
    pub fn sys_json(&self, m: &SystemMessage) -> Value {
        match m {
            SystemMessage::Exit(from, rs) => json!({"k":"x","from":self.id(*from),"rs":rs_str(rs)}),
            SystemMessage::ProcessDown(d, r, rs) => {
                let rid = self.t.lock().unwrap().refids.get(r).copied().unwrap_or(-1);
                json!({"k":"d","ref":rid,"d":self.dest_json(d),"rs":rs_str(rs)})
            }
            SystemMessage::NodeDown(..) => json!({"k":"n"}),
        }
    }
    fn item<T: Payload>(&self, m: Message<T>) -> Value {
        match m {
            Message::User(u) => json!({"k":"u","ty":T::TY,"m":u.num()}),
            Message::System(s) => self.sys_json(&s),
        }
    }
}

pub fn i(op: &Value, k: &str) -> i64 {
    op[k].as_i64().unwrap_or_else(|| panic!("harness: {k} in {op}"))
}
pub fn st<'a>(op: &'a Value, k: &str) -> &'a str {
    op[k].as_str().unwrap_or_else(|| panic!("harness: {k} in {op}"))
}

#[derive(Clone)]
struct Flt {
    u: i64,
    x: bool,
    d: bool,
}
impl Flt {
    fn of(op: &Value) -> Self {
        Flt { u: i(op, "u"), x: op["x"].as_bool().unwrap(), d: op["d"].as_bool().unwrap() }
    }
    fn all(&self) -> bool {
        self.u == -1 && self.x && self.d
    }
    fn ok<T: Payload>(&self, m: &Message<&T>) -> bool {
        match m {
            Message::User(v) => match self.u {
                -1 => true,
                -2 => false,
                -3 => v.num() % 2 == 0,
                -4 => v.num() % 2 == 1,
                e => v.num() == e,
            },
            Message::System(SystemMessage::Exit(..)) => self.x,
            Message::System(_) => self.d,
        }
    }
}

type BoxFut<T> = Pin<Box<dyn Future<Output = T> + Send>>;

fn recv_fut<T: Payload>(op: &Value) -> BoxFut<Message<T>> {
    let f = Flt::of(op);
    let strict = op["strict"].as_bool().unwrap();
    if strict && f.all() {
        return Box::pin(Process::receive::<T>());
    }
    let mut r = Process::receiver().for_message::<T>();
    if strict {
        r = r.strict_type_checking();
    }
    if f.all() {
        Box::pin(r.receive())
    } else {
        Box::pin(async move { r.select(move |m| f.ok(m)).await })
    }
}

/// Polls and turns a panic into Err.
async fn guarded<T>(mut fut: BoxFut<T>) -> Result<T, Box<dyn std::any::Any + Send>> {
    std::future::poll_fn(move |cx| match catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(cx))) {
        Ok(Poll::Ready(v)) => Poll::Ready(Ok(v)),
        Ok(Poll::Pending) => Poll::Pending,
        Err(e) => Poll::Ready(Err(e)),
    })
    .await
}

async fn do_recv<T: Payload>(ctx: &Arc<Ctx>, p: i64, op: &Value) {
    let ms = op["ms"].as_i64().unwrap_or(-1);
    match st(op, "o") {
        "recv" => {
            ctx.begin(p, op);
            let mut fut = Box::pin(guarded(recv_fut::<T>(op)));
            let mut polls = op["polls"].as_i64().unwrap_or(1);
            let r = std::future::poll_fn(|cx| loop {
                match fut.as_mut().poll(cx) {
                    Poll::Ready(v) => return Poll::Ready(Some(v)),
                    Poll::Pending => {
                        polls -= 1;
                        if polls <= 0 {
                            return Poll::Ready(None);
                        }
                    }
                }
            })
            .await;
            drop(fut);
            match r {
                None => ctx.end(p, op, json!({"k":"none"})),
                Some(Ok(m)) => ctx.end(p, op, ctx.item(m)),
                Some(Err(e)) => {
                    ctx.end(p, op, json!({"k":"panic"}));
                    std::panic::resume_unwind(e);
                }
            }
        }
        "recvb" => {
            let done = crate::gs::fin(op, "recvd");
            if ctx.conc {
                ctx.begin(p, op);
            } else {
                ctx.end(p, op, json!("ok"));
            }
            let r = if ms < 0 {
                Some(guarded(recv_fut::<T>(op)).await)
            } else {
                match Process::timeout(Duration::from_millis(ms as u64), guarded(recv_fut::<T>(op))).await {
                    Ok(v) => Some(v),
                    Err(_) => None,
                }
            };
            match r {
                None => ctx.end(p, &done, json!({"k":"timeout"})),
                Some(Ok(m)) => ctx.end(p, &done, ctx.item(m)),
                Some(Err(e)) => {
                    ctx.end(p, &done, json!({"k":"panic"}));
                    std::panic::resume_unwind(e);
                }
            }
        }
        "remove" => {
            ctx.begin(p, op);
            let f = Flt::of(op);
            Process::receiver().for_message::<T>().remove(move |m| f.ok(m));
            ctx.end(p, op, json!("ok"));
        }
        _ => unreachable!(),
    }
}

fn do_send<T: Payload>(ctx: &Ctx, p: i64, op: &Value) {
    let ds: Vec<Option<Dest>> = op["dests"].as_array().unwrap().iter().map(|d| ctx.dest(d)).collect();
    if ds.iter().any(|x| x.is_none()) {
        return;
    }
    let mut ds: Vec<Dest> = ds.into_iter().flatten().collect();
    let m = T::make(i(op, "m"));
    let dests: Dests = if ds.len() == 1 && !op["vec"].as_bool().unwrap_or(false) {
        Dests::from(ds.pop().unwrap())
    } else {
        Dests::from(ds)
    };
    ctx.begin(p, op);
    if st(op, "o") == "send" {
        Process::send(dests, m);
    } else {
        let r = Process::send_after(dests, m, Duration::from_millis(i(op, "ms") as u64));
        ctx.add_ref(i(op, "tm"), r);
    }
    ctx.end(p, op, json!("ok"));
}

fn do_spawn(ctx: &Arc<Ctx>, p: i64, op: &Value) {
    let c = i(op, "c");
    let (tx, rx) = mpsc::unbounded_channel();
    ctx.t.lock().unwrap().actors.insert(c, tx);
    let init: Vec<Value> = op["init"].as_array().cloned().unwrap_or_default();
    let fut = actor(ctx.clone(), c, rx, init);
    let _enter = op["on"].as_u64().map(|h| ctx.handles[h as usize].enter());
    ctx.begin(p, op);
    let pid = match st(op, "kind") {
        "plain" => Process::spawn(fut),
        "link" => Process::spawn_link(fut),
        "mon" => {
            let (pid, r) = Process::spawn_monitor(fut);
            ctx.add_ref(i(op, "ref"), r);
            pid
        }
        _ => unreachable!(),
    };
    ctx.add_pid(c, pid);
    ctx.end(p, op, json!("ok"));
}

/// An operation on "the process of child id" becomes one on its latest process.
fn resolve(ctx: &Ctx, op: &Value) -> Option<Value> {
    let id = op["kid"].as_str()?;
    let q = ctx.t.lock().unwrap().kids.get(id).copied().unwrap_or(1);
    let mut op = op.clone();
    op.as_object_mut().unwrap().remove("kid");
    if op.get("dest").is_some() {
        op["dest"] = json!(["pid", q, ""]);
    } else if op.get("dests").is_some() {
        op["dests"] = json!([["pid", q, ""]]);
    } else {
        op["q"] = json!(q);
    }
    Some(op)
}

/// Executes one operation that does not wait.  Returns false if it is not of that kind.
pub fn exec_sync(ctx: &Arc<Ctx>, p: i64, op: &Value) -> bool {
    if let Some(op) = resolve(ctx, op) {
        return exec_sync(ctx, p, &op);
    }
    macro_rules! pid {
        ($k:expr) => {
            match ctx.pid(i(op, $k)) {
                Some(x) => x,
                None => return true,
            }
        };
    }
    macro_rules! rf {
        ($k:expr) => {
            match ctx.refr(i(op, $k)) {
                Some(x) => x,
                None => return true,
            }
        };
    }
    match st(op, "o") {
        "spawn" => do_spawn(ctx, p, op),
        "send" | "sendafter" => match st(op, "ty") {
            "S" => do_send::<String>(ctx, p, op),
            "U" => do_send::<u64>(ctx, p, op),
            _ => do_send::<Rich>(ctx, p, op),
        },
        "exitself" => {
            // As an exit sent to oneself, which is what ends the process.
            let op = json!({"o":"exit","q":p,"rs":op["rs"]});
            ctx.begin(p, &op);
            Process::exit(Process::current(), rs_of(st(&op, "rs")));
            ctx.end(p, &op, json!("ok"));
        }
        "exit" => {
            let q = pid!("q");
            ctx.begin(p, op);
            Process::exit(q, rs_of(st(op, "rs")));
            ctx.end(p, op, json!("ok"));
        }
        "link" | "unlink" => {
            let q = pid!("q");
            ctx.begin(p, op);
            if st(op, "o") == "link" {
                Process::link(q);
            } else {
                Process::unlink(q);
            }
            ctx.end(p, op, json!("ok"));
        }
        "monitor" => {
            let Some(d) = ctx.dest(&op["dest"]) else { return true };
            ctx.begin(p, op);
            let r = catch_unwind(AssertUnwindSafe(|| match st(op, "alias") {
                "none" => Process::monitor(d),
                a => Process::monitor_alias(d, a == "reply"),
            }));
            match r {
                Ok(r) => {
                    ctx.add_ref(i(op, "ref"), r);
                    ctx.end(p, op, json!("ok"));
                }
                Err(_) => ctx.end(p, op, json!("panic")),
            }
        }
        "demonitor" => {
            let r = rf!("ref");
            ctx.begin(p, op);
            Process::demonitor(r);
            ctx.end(p, op, json!("ok"));
        }
        "alias" => {
            ctx.begin(p, op);
            let r = Process::alias(op["reply"].as_bool().unwrap());
            ctx.add_ref(i(op, "ref"), r);
            ctx.end(p, op, json!("ok"));
        }
        "unalias" => {
            let r = rf!("ref");
            ctx.begin(p, op);
            let v = Process::unalias(r);
            ctx.end(p, op, json!(v));
        }
        "register" => {
            let q = pid!("q");
            ctx.begin(p, op);
            let r = Process::register(q, ctx.name(st(op, "n")));
            ctx.end(p, op, json!(if r.is_ok() { "ok" } else { "err" }));
        }
        "unregister" => {
            ctx.begin(p, op);
            let n = ctx.name(st(op, "n"));
            let r = catch_unwind(AssertUnwindSafe(|| Process::unregister(n)));
            ctx.end(p, op, json!(if r.is_ok() { "ok" } else { "panic" }));
        }
        "whereis" => {
            ctx.begin(p, op);
            let r = Process::whereis(ctx.name(st(op, "n")));
            ctx.end(p, op, json!(r.map(|q| ctx.id(q)).unwrap_or(0)));
        }
        "trap" => {
            ctx.begin(p, op);
            Process::set_flags(if op["v"].as_bool().unwrap() { ProcessFlags::TRAP_EXIT } else { ProcessFlags::empty() });
            ctx.end(p, op, json!("ok"));
        }
        "flags" => {
            ctx.begin(p, op);
            let f = Process::flags();
            ctx.end(p, op, json!(f.contains(ProcessFlags::TRAP_EXIT)));
        }
        "alive" => {
            let q = pid!("q");
            ctx.begin(p, op);
            let r = Process::alive(q);
            ctx.end(p, op, json!(r));
        }
        "listed" => {
            let q = pid!("q");
            ctx.begin(p, op);
            let r = Process::list().contains(&q);
            ctx.end(p, op, json!(r));
        }
        "cancel" => {
            let r = rf!("tm");
            ctx.begin(p, op);
            Process::cancel_timer(r);
            ctx.end(p, op, json!("ok"));
        }
        "readt" => {
            let r = rf!("tm");
            ctx.begin(p, op);
            let v = Process::read_timer(r);
            ctx.end(p, op, json!(v.map(|x| x.as_millis() as i64).unwrap_or(-1)));
        }
        _ => return crate::gs::exec_g_sync(ctx, p, op),
    }
    true
}

/// Executes one operation; returns true if the process function must return.
pub async fn exec(ctx: &Arc<Ctx>, p: i64, op: &Value) -> bool {
    if exec_sync(ctx, p, op) {
        return false;
    }
    match st(op, "o") {
        "recv" | "recvb" | "remove" => match st(op, "ty") {
            "S" => do_recv::<String>(ctx, p, op).await,
            "U" => do_recv::<u64>(ctx, p, op).await,
            _ => do_recv::<Rich>(ctx, p, op).await,
        },
        "yield" => tokio::task::yield_now().await,
        "ret" => {
            ctx.begin(p, op);
            ctx.end(p, op, json!("ok"));
            return true;
        }
        "panic" => {
            ctx.begin(p, op);
            ctx.end(p, op, json!("ok"));
            let rs = st(op, "rs")[2..].to_string();
            match rs.as_str() {
                "Unknown error!" => std::panic::panic_any(7u8),
                "static text" => panic!("static text"),
                _ => panic!("{}", rs),
            }
        }
        _ => {
            let r = resolve(ctx, op);
            let op = r.as_ref().unwrap_or(op);
            if !Box::pin(crate::sup::exec_s(ctx, p, op)).await && !Box::pin(crate::reg::exec_r(ctx, p, op)).await {
                crate::gs::exec_g(ctx, p, op).await;
            }
        }
    }
    false
}

async fn actor(ctx: Arc<Ctx>, p: i64, mut rx: mpsc::UnboundedReceiver<Vec<Value>>, init: Vec<Value>) {
    ctx.add_pid(p, Process::current());
    for op in init {
        if exec(&ctx, p, &op).await {
            return;
        }
    }
    while let Some(ops) = rx.recv().await {
        for op in ops {
            if exec(&ctx, p, &op).await {
                return;
            }
        }
    }
    std::future::pending::<()>().await
}

/// What can be observed from outside, when everything is idle.
pub fn snapshot(ctx: &Ctx, baseline: &std::collections::HashSet<Pid>, now: i64) -> Value {
    ctx.find_lost(baseline);
    let mut list = vec![];
    let mut info = vec![];
    for pid in Process::list() {
        if baseline.contains(&pid) {
            continue;
        }
        let id = ctx.id(pid);
        list.push(id);
        if id < 0 {
            continue;
        }
        if let Some(x) = Process::info(pid) {
            let alive = Process::alive(pid);
            info.push(json!({"p":id, "alive":alive,
                "nm": x.registered_name.as_deref().map(|n| ctx.unname(n)).unwrap_or_default(),
                "trap": x.trap_exit,
                "links": x.links.iter().map(|q| ctx.id(*q)).collect::<Vec<_>>(),
                "monby": x.monitored_by.iter().map(|q| ctx.id(*q)).collect::<Vec<_>>()}));
        } else {
            info.push(json!({"p":id, "alive":false, "nm":"?", "trap":false, "links":[], "monby":[]}));
        }
    }
    list.sort();
    let mut reg = vec![];
    for n in Process::registered() {
        if let Some(short) = n.strip_prefix(&ctx.prefix) {
            reg.push(json!([short, Process::whereis(&n).map(|q| ctx.id(q)).unwrap_or(-2)]));
        }
    }
    json!({"o":"quiet","now":now,"list":list,"reg":reg,"info":info})
}

pub fn cleanup(ctx: &Arc<Ctx>, run: &dyn Fn()) {
    let pids: Vec<Pid> = ctx.t.lock().unwrap().ids.keys().copied().collect();
    Process::spawn(async move {
        for p in pids {
            Process::exit(p, ExitReason::Kill);
        }
    });
    run();
}

/// Runs one sequential script.
pub fn run_script(script: &Value, n: usize) -> Value {
    let q = crate::rt::QRt::new(true);
    let h = q.handle();
    let _enter = h.enter();
    let ctx = Ctx::new(format!("s{n}:"), false, vec![h.clone()]);
    crate::watch::set_current(script["id"].clone(), ctx.clone());
    let baseline: std::collections::HashSet<Pid> = Process::list().into_iter().collect();
    let mut now = 0i64;
    for step in script["steps"].as_array().unwrap() {
        crate::watch::beat();
        if let Some(ms) = step["adv"].as_i64() {
            let target = now + ms;
            while now < target {
                let d = step["by"].as_i64().unwrap_or(5).min(target - now);
                now += d;
                ctx.push_adv(now, d);
                q.advance(d as u64);
            }
        } else {
            for b in step["b"].as_array().unwrap() {
                let a = match b[0].as_str() {
                    Some(id) => ctx.t.lock().unwrap().kids.get(id).copied().unwrap_or(-1),
                    None => b[0].as_i64().unwrap(),
                };
                let ops = b[1].as_array().unwrap().clone();
                if a == 0 {
                    for op in &ops {
                        assert!(exec_sync(&ctx, 0, op), "harness: {op}");
                    }
                } else {
                    let tx = ctx.t.lock().unwrap().actors.get(&a).cloned();
                    if let Some(tx) = tx {
                        let _ = tx.send(ops);
                    }
                }
            }
        }
        q.run_idle();
        ctx.push(snapshot(&ctx, &baseline, now));
    }
    cleanup(&ctx, &|| q.run_idle());
    ctx.push(json!({"o":"final","left":Process::list().into_iter().filter(|p| !baseline.contains(p)).count()}));
    let ev = std::mem::take(&mut *ctx.log.lock().unwrap());
    json!({"id":script["id"],"ev":ev})
}
