//! Concurrent executions: several OS threads, each with its own runtime, share the process tables.  A scheduler lets
//! only one of them run at a time, and switches between them at the shard lock operations of the tables.
use std::cell::Cell;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::Duration;

use hydra::*;
use serde_json::{json, Value};

use crate::core::{exec_sync, snapshot, Ctx};
use crate::rt::QRt;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Idle,
    Running,
    AtPoint,
    Blocked,
}

struct State {
    turn: Option<usize>,
    budget: i64,
    st: Vec<St>,
    points: Vec<i64>,
    /// The scheduler is not in control: every thread runs freely.
    advance: Vec<i64>,
    stuck: Vec<bool>,
    free: Vec<bool>,
}

struct Sched {
    m: Mutex<State>,
    cv: Condvar,
}

static SCHED: OnceLock<Sched> = OnceLock::new();

thread_local! {
    static ME: Cell<Option<usize>> = const { Cell::new(None) };
}

fn sched() -> &'static Sched {
    SCHED.get().unwrap()
}

fn wait_turn(mut g: std::sync::MutexGuard<'_, State>, me: usize) {
    while g.turn != Some(me) {
        g = sched().cv.wait(g).unwrap();
    }
    g.st[me] = St::Running;
}

/// The threads run without the scheduler.
static FREE: AtomicBool = AtomicBool::new(false);
/// Threads that wait for the others to start at the same time.
static READY: AtomicUsize = AtomicUsize::new(0);

pub fn point() {
    let Some(me) = ME.with(|m| m.get()) else { return };
    if FREE.load(Ordering::SeqCst) {
        return;
    }
    let mut g = sched().m.lock().unwrap();
    g.points[me] += 1;
    if g.turn == Some(me) {
        if g.budget < 0 {
            return;
        }
        if g.budget > 0 {
            g.budget -= 1;
            return;
        }
        g.turn = None;
    }
    g.st[me] = St::AtPoint;
    sched().cv.notify_all();
    wait_turn(g, me);
}

fn blocked() {
    let Some(me) = ME.with(|m| m.get()) else { return };
    if FREE.load(Ordering::SeqCst) {
        return;
    }
    let mut g = sched().m.lock().unwrap();
    g.st[me] = St::Blocked;
    if g.turn == Some(me) {
        g.turn = None;
    }
    sched().cv.notify_all();
}

fn unblocked() {
    let Some(me) = ME.with(|m| m.get()) else { return };
    if FREE.load(Ordering::SeqCst) {
        return;
    }
    let mut g = sched().m.lock().unwrap();
    g.st[me] = St::AtPoint;
    sched().cv.notify_all();
    wait_turn(g, me);
}

fn worker(me: usize, tx: std::sync::mpsc::Sender<tokio::runtime::Handle>) {
    let q = QRt::new(true);
    tx.send(q.handle()).unwrap();
    ME.with(|m| m.set(Some(me)));
    loop {
        let adv;
        let free;
        {
            let mut g = sched().m.lock().unwrap();
            g.st[me] = St::Idle;
            if g.turn == Some(me) {
                g.turn = None;
            }
            sched().cv.notify_all();
            while g.turn != Some(me) && !g.free[me] {
                g = sched().cv.wait(g).unwrap();
            }
            g.st[me] = St::Running;
            adv = std::mem::take(&mut g.advance[me]);
            free = std::mem::take(&mut g.free[me]);
        }
        if free {
            READY.fetch_sub(1, Ordering::SeqCst);
            while READY.load(Ordering::SeqCst) > 0 {
                std::hint::spin_loop();
            }
        }
        if adv > 0 {
            q.advance(adv as u64);
        }
        q.run_idle();
    }
}

/// Gives the turn to a thread until it used up its budget of lock operations (< 0: no limit), is idle or blocked.
/// Returns false if the thread can not run.
fn run(i: usize, budget: i64) -> bool {
    let s = sched();
    let mut g = s.m.lock().unwrap();
    if g.st[i] == St::Blocked || g.stuck[i] && g.st[i] == St::Running {
        return false;
    }
    g.stuck[i] = false;
    g.turn = Some(i);
    g.budget = budget;
    s.cv.notify_all();
    let mut waited = 0;
    let max = STUCK.load(std::sync::atomic::Ordering::Relaxed);
    let slice = max.min(100);
    while g.turn == Some(i) {
        crate::clock::real(true);
        let (g2, to) = s.cv.wait_timeout(g, Duration::from_millis(slice)).unwrap();
        crate::clock::real(false);
        g = g2;
        if to.timed_out() {
            waited += slice;
            if waited >= max && g.turn == Some(i) {
                // Waits for something the scheduler does not know of.
                g.turn = None;
                g.stuck[i] = true;
                break;
            }
        }
    }
    true
}

/// All threads run at the same time, as they please, until each of them has nothing to do.
fn run_free(n: usize) -> bool {
    let s = sched();
    let mut g = s.m.lock().unwrap();
    READY.store(n, Ordering::SeqCst);
    FREE.store(true, Ordering::SeqCst);
    g.free.iter_mut().for_each(|f| *f = true);
    s.cv.notify_all();
    let mut waited = 0;
    while g.free.iter().any(|f| *f) || g.st.iter().any(|s| *s != St::Idle) {
        crate::clock::real(true);
        let (g2, to) = s.cv.wait_timeout(g, Duration::from_millis(100)).unwrap();
        crate::clock::real(false);
        g = g2;
        if to.timed_out() {
            waited += 100;
            if waited > 20_000 {
                return false;
            }
        }
    }
    FREE.store(false, Ordering::SeqCst);
    true
}

/// Runs every thread until nothing is left to do.  Returns false if that never happens.
pub fn settle(n: usize) -> bool {
    let mut quiet = 0;
    let mut stalled = 0;
    let mut rounds = 0;
    while quiet < 2 {
        crate::watch::beat();
        rounds += 1;
        if rounds > 100_000 {
            return false;
        }
        let before: i64 = sched().m.lock().unwrap().points.iter().sum();
        let mut all_idle = true;
        for i in 0..n {
            run(i, -1);
        }
        {
            let g = sched().m.lock().unwrap();
            for i in 0..n {
                if g.st[i] != St::Idle {
                    all_idle = false;
                }
            }
        }
        let after: i64 = sched().m.lock().unwrap().points.iter().sum();
        if all_idle && before == after {
            quiet += 1;
        } else {
            quiet = 0;
        }
        if before == after && !all_idle {
            stalled += 1;
            std::thread::sleep(Duration::from_millis(2));
            if stalled > 500 {
                return false;
            }
        } else {
            stalled = 0;
        }
    }
    true
}

pub struct Pool {
    pub handles: Vec<tokio::runtime::Handle>,
}

/// How long a thread may keep the turn without a sign of life, in milliseconds.
pub static STUCK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(2000);

pub fn pool(n: usize) -> Pool {
    let _ = SCHED.set(Sched {
        m: Mutex::new(State {
            turn: None,
            budget: -1,
            st: vec![St::Running; n],
            points: vec![0; n],
            advance: vec![0; n],
            stuck: vec![false; n],
            free: vec![false; n],
        }),
        cv: Condvar::new(),
    });
    dashmap::sched::install(dashmap::sched::Hooks { point, blocked, unblocked });
    dashmap::sched::enable(true);
    let mut handles = vec![];
    for i in 0..n {
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::Builder::new().name(format!("w{i}")).spawn(move || worker(i, tx)).unwrap();
        handles.push(rx.recv().unwrap());
    }
    let mut g = sched().m.lock().unwrap();
    while g.st.iter().any(|s| *s != St::Idle) {
        g = sched().cv.wait(g).unwrap();
    }
    drop(g);
    Pool { handles }
}

pub fn reset() {
    sched().m.lock().unwrap().points.iter_mut().for_each(|p| *p = 0);
}

pub fn points() -> Vec<i64> {
    sched().m.lock().unwrap().points.clone()
}

/// Runs the threads by a schedule.
pub fn schedule(n: usize, sch: &[(usize, i64)]) {
    for (i, b) in sch {
        if !run(*i, *b) {
            // It waits for a lock: let the others go on for a while.
            for j in 0..n {
                if j != *i {
                    run(j, 3);
                }
            }
            run(*i, *b);
        }
    }
}

fn feed(ctx: &Arc<Ctx>, batches: &Value) {
    for b in batches.as_array().unwrap() {
        let a = b[0].as_i64().unwrap();
        let ops = b[1].as_array().unwrap().clone();
        if a == 0 {
            for op in &ops {
                assert!(exec_sync(ctx, 0, op), "harness: {op}");
            }
        } else if let Some(tx) = ctx.t.lock().unwrap().actors.get(&a).cloned() {
            let _ = tx.send(ops);
        }
    }
}

fn hang(id: &Value, ctx: &Arc<Ctx>, sch: &[(usize, i64)]) -> ! {
    let mut ev = ctx.log.lock().unwrap().clone();
    ev.push(json!({"o":"hang"}));
    crate::emit(&json!({"id":id,"ev":ev,"sched":sch}));
    std::process::exit(3);
}

static RUNS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// One execution under one schedule.  Returns the trace and the number of lock operations of each thread in the race.
pub fn once(pool: &Pool, script: &Value, sch: &[(usize, i64)]) -> (Vec<Value>, Vec<i64>) {
    let n = pool.handles.len();
    let k = RUNS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let ctx = Ctx::new(format!("c{k}:"), true, pool.handles.clone());
    crate::watch::set_current(script["id"].clone(), ctx.clone());
    let _enter = pool.handles[0].enter();
    let baseline: HashSet<Pid> = Process::list().into_iter().collect();
    for b in script["setup"].as_array().unwrap() {
        feed(&ctx, b);
        if !settle(n) {
            hang(&script["id"], &ctx, sch);
        }
    }
    ctx.push(snapshot(&ctx, &baseline, 0));
    let mut now = 0;
    if let Some(a) = script["adv"].as_i64() {
        now += a;
        crate::clock::step(a);
        ctx.push_adv(now, 5);
        let mut g = sched().m.lock().unwrap();
        for i in 0..n {
            g.advance[i] = a;
        }
    }
    feed(&ctx, &script["race"]);
    reset();
    let free = sch.first() == Some(&(n, -2));
    if free {
        if !run_free(n) {
            hang(&script["id"], &ctx, sch);
        }
    } else {
        schedule(n, sch);
    }
    if !settle(n) {
        hang(&script["id"], &ctx, sch);
    }
    let pts = points();
    ctx.push(snapshot(&ctx, &baseline, now));
    for b in script["after"].as_array().unwrap() {
        feed(&ctx, b);
        if !settle(n) {
            hang(&script["id"], &ctx, sch);
        }
    }
    ctx.push(snapshot(&ctx, &baseline, now));
    // Timers that are still there must not disturb the next execution.
    let refs: Vec<Reference> = ctx.t.lock().unwrap().refs.values().copied().collect();
    for r in refs {
        Process::cancel_timer(r);
    }
    let ok = std::cell::Cell::new(true);
    crate::core::cleanup(&ctx, &|| ok.set(settle(n)));
    if !ok.get() {
        hang(&script["id"], &ctx, sch);
    }
    ctx.push(json!({"o":"final","left":Process::list().into_iter().filter(|p| !baseline.contains(p)).count()}));
    let ev = std::mem::take(&mut *ctx.log.lock().unwrap());
    (ev, pts)
}

type Once = fn(&Pool, &Value, &[(usize, i64)]) -> (Vec<Value>, Vec<i64>);

/// Explores the schedules of a script; only distinct executions are printed.
fn explore(pool: &Pool, script: &Value, once: Once) -> Value {
    let n = pool.handles.len();
    let preempt = script["preempt"].as_u64().unwrap_or(1);
    let max = script["max"].as_u64().unwrap_or(2000) as usize;
    let mut seed = script["seed"].as_u64().unwrap_or(1) | 1;
    let mut rnd = move |m: i64| {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        (seed % (m.max(1) as u64)) as i64
    };
    let mut seen: HashSet<String> = HashSet::new();
    let mut traces = vec![];
    let mut runs = 0usize;
    let mut exec = |sch: &[(usize, i64)]| -> Vec<i64> {
        let (ev, pts) = once(pool, script, sch);
        runs += 1;
        let key = serde_json::to_string(&ev).unwrap();
        if seen.insert(key) {
            traces.push(json!({"ev":ev,"sched":sch}));
        }
        pts
    };
    let mut todo: Vec<Vec<(usize, i64)>> = vec![];
    let mut total = 0;
    for a in 0..n {
        let others: Vec<usize> = (0..n).filter(|x| *x != a).collect();
        let mut base = vec![(a, -1)];
        base.extend(others.iter().map(|b| (*b, -1)));
        let pts = exec(&base);
        total = pts.iter().sum::<i64>();
        for k in 0..pts[a] {
            for b in &others {
                let sch = vec![(a, k), (*b, -1)];
                let p2 = exec(&sch);
                if preempt >= 2 {
                    for k2 in 0..p2[*b] {
                        for c in (0..n).filter(|c| c != b) {
                            todo.push(vec![(a, k), (*b, k2), (c, -1)]);
                        }
                    }
                }
            }
        }
    }
    if todo.len() > max {
        // a sample
        for i in 0..max {
            let j = i + rnd((todo.len() - i) as i64) as usize;
            todo.swap(i, j);
        }
        todo.truncate(max);
    }
    for sch in todo {
        exec(&sch);
    }
    // and some with many switches
    for _ in 0..script["random"].as_u64().unwrap_or(0) {
        let mut sch = vec![];
        for _ in 0..(3 + rnd(6)) {
            sch.push((rnd(n as i64) as usize, rnd(total / 2 + 2)));
        }
        exec(&sch);
    }
    for _ in 0..script["free"].as_u64().unwrap_or(0) {
        exec(&[(n, -2)]);
    }
    json!({"id":script["id"],"runs":runs,"traces":traces,"ev":[]})
}

pub fn main(scripts: Vec<Value>, once: Once) {
    let n = scripts.iter().map(|s| s["threads"].as_u64().unwrap_or(2)).max().unwrap_or(2) as usize;
    let p = pool(n);
    for s in scripts {
        if let Some(sch) = s["sched"].as_array() {
            let sch: Vec<(usize, i64)> = sch.iter().map(|x| (x[0].as_u64().unwrap() as usize, x[1].as_i64().unwrap())).collect();
            let (ev, _) = once(&p, &s, &sch);
            crate::emit(&json!({"id":s["id"],"runs":1,"traces":[{"ev":ev,"sched":sch}],"ev":[]}));
        } else {
            let v = explore(&p, &s, once);
            crate::emit(&v);
        }
    }
    // The worker threads never end.
    std::process::exit(0);
}
