//! Threads that run truly at the same time create processes, aliases, monitors and timers in tight loops.
use std::collections::HashMap;
use std::hash::Hash;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use hydra::*;
use serde_json::{json, Value};

struct Intern<T> {
    m: Mutex<HashMap<T, usize>>,
}

impl<T: Hash + Eq> Intern<T> {
    fn new() -> Self {
        Self { m: Mutex::new(HashMap::new()) }
    }
    fn get(&self, x: T) -> usize {
        let mut g = self.m.lock().unwrap();
        let n = g.len() + 1;
        *g.entry(x).or_insert(n)
    }
}

/// All threads leave at the same time.
struct Gate {
    n: usize,
    c: AtomicUsize,
}

impl Gate {
    fn wait(&self) {
        let at = self.c.fetch_add(1, Ordering::SeqCst) / self.n;
        let mut spins = 0u32;
        while self.c.load(Ordering::SeqCst) / self.n == at {
            spins += 1;
            if spins > 20_000 {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
    }
}

struct Shared {
    pids: Intern<Pid>,
    refs: Intern<Reference>,
    log: Mutex<Vec<Value>>,
    got: Mutex<Vec<(usize, i64)>>,
    aliases: Vec<Mutex<Vec<Reference>>>,
    gate: Gate,
}

impl Shared {
    fn push(&self, v: Value) {
        self.log.lock().unwrap().push(v);
    }
}

fn until(limit: Duration, f: impl Fn() -> bool) {
    let t = std::time::Instant::now();
    while !f() && t.elapsed() < limit {
        std::thread::sleep(Duration::from_millis(1));
    }
}

#[derive(Default)]
struct Mine {
    seen: Vec<(usize, i64)>,
    downs: Vec<usize>,
    other: usize,
}

async fn drain(sh: &Shared, me: &mut Mine) {
    loop {
        let r = Process::timeout(Duration::from_millis(1), Process::receive::<(usize, i64)>()).await;
        match r {
            Err(_) => break,
            Ok(Message::User((a, m))) => me.seen.push((a, m)),
            Ok(Message::System(SystemMessage::ProcessDown(_, r, _))) => me.downs.push(sh.refs.get(r)),
            Ok(_) => me.other += 1,
        }
    }
}

async fn runner(i: usize, n: usize, rounds: usize, sh: Arc<Shared>) {
    let threads = sh.gate.n;
    let mut me = Mine::default();
    for round in 0..rounds {
        let mut pids = Vec::with_capacity(n);
        let mut refs = Vec::with_capacity(n);
        // Processes.
        sh.gate.wait();
        for _ in 0..n {
            let s2 = sh.clone();
            pids.push(Process::spawn(async move {
                loop {
                    if let Message::User(m) = Process::receive::<i64>().await {
                        let id = s2.pids.get(Process::current());
                        s2.got.lock().unwrap().push((id, m));
                    }
                }
            }));
        }
        let ids: Vec<usize> = pids.iter().map(|p| sh.pids.get(*p)).collect();
        sh.push(json!({"o":"new","k":"pid","p":i,"ids":ids}));
        for (p, id) in pids.iter().zip(&ids) {
            Process::send(*p, *id as i64);
        }
        // References: aliases, monitors, timers.
        sh.gate.wait();
        for _ in 0..n {
            refs.push(Process::alias(round % 2 == 0));
        }
        let al: Vec<usize> = refs.iter().map(|r| sh.refs.get(*r)).collect();
        sh.push(json!({"o":"new","k":"alias","p":i,"ids":al}));
        *sh.aliases[i].lock().unwrap() = refs.clone();
        sh.gate.wait();
        let mons: Vec<Reference> = pids.iter().map(|p| Process::monitor(*p)).collect();
        let mo: Vec<usize> = mons.iter().map(|r| sh.refs.get(*r)).collect();
        sh.push(json!({"o":"new","k":"mon","p":i,"ids":mo}));
        sh.gate.wait();
        let tms: Vec<Reference> = (0..n)
            .map(|_| Process::send_after(Process::current(), (0usize, 0i64), Duration::from_secs(100_000)))
            .collect();
        let tm: Vec<usize> = tms.iter().map(|r| sh.refs.get(*r)).collect();
        sh.push(json!({"o":"new","k":"timer","p":i,"ids":tm}));
        // Every process got what was sent to it.
        Process::sleep(Duration::from_millis(1)).await;
        sh.gate.wait();
        let all = n * threads;
        let t = std::time::Instant::now();
        while sh.got.lock().unwrap().len() < all && t.elapsed() < Duration::from_secs(30) {
            Process::sleep(Duration::from_millis(1)).await;
        }
        sh.gate.wait();
        if i == 0 {
            let g: Vec<(usize, i64)> = std::mem::take(&mut *sh.got.lock().unwrap());
            sh.push(json!({"o":"got","m":g}));
            let l: Vec<usize> = Process::list().into_iter().map(|p| sh.pids.get(p)).collect();
            sh.push(json!({"o":"list","ids":l}));
        }
        // The aliases of the next thread deliver to that thread.
        let other: Vec<Reference> = sh.aliases[(i + 1) % threads].lock().unwrap().clone();
        sh.gate.wait();
        for (j, r) in other.iter().enumerate() {
            Process::send(*r, ((i + 1) % threads, j as i64));
        }
        sh.gate.wait();
        drain(&sh, &mut me).await;
        sh.push(json!({"o":"alias-got","p":i,"n":n,"to":me.seen.iter().map(|x| x.0).collect::<std::collections::BTreeSet<_>>(),
            "m":me.seen.iter().map(|x| x.1).collect::<Vec<_>>()}));
        me.seen.clear();
        // Timers: cancelling one's own leaves those of the others.
        sh.gate.wait();
        for r in tms.iter().take(n / 2) {
            Process::cancel_timer(*r);
        }
        sh.gate.wait();
        let left: Vec<usize> = tms.iter().filter(|r| Process::read_timer(**r).is_some()).map(|r| sh.refs.get(*r)).collect();
        sh.push(json!({"o":"timers","p":i,"all":tm,"cut":n / 2,"left":left}));
        sh.gate.wait();
        for r in tms.iter().skip(n / 2) {
            Process::cancel_timer(*r);
        }
        for r in refs {
            Process::unalias(r);
        }
        // And all of them end: exactly one down message for each monitor.
        sh.gate.wait();
        for p in &pids {
            Process::exit(*p, ExitReason::Kill);
        }
        let t = std::time::Instant::now();
        while me.downs.len() < n && t.elapsed() < Duration::from_secs(30) {
            Process::sleep(Duration::from_millis(1)).await;
            drain(&sh, &mut me).await;
        }
        Process::sleep(Duration::from_millis(2)).await;
        drain(&sh, &mut me).await;
        sh.push(json!({"o":"downs","p":i,"refs":me.downs,"other":me.other}));
        me.downs.clear();
        sh.gate.wait();
        if i == 0 {
            let l: Vec<usize> = Process::list().into_iter().map(|p| sh.pids.get(p)).collect();
            sh.push(json!({"o":"list-end","ids":l}));
        }
        sh.gate.wait();
    }
}

pub fn run_script(s: &Value) -> Value {
    let n = s["n"].as_u64().unwrap() as usize;
    let threads = s["threads"].as_u64().unwrap() as usize;
    let rounds = s["rounds"].as_u64().unwrap() as usize;
    let sh = Arc::new(Shared {
        pids: Intern::new(),
        refs: Intern::new(),
        log: Mutex::new(vec![]),
        got: Mutex::new(vec![]),
        aliases: (0..threads).map(|_| Mutex::new(vec![])).collect(),
        gate: Gate { n: threads, c: AtomicUsize::new(0) },
    });
    let done = Arc::new(AtomicUsize::new(0));
    // The runners are known before anything else happens.
    let mut rts = vec![];
    for _ in 0..threads {
        rts.push(tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap());
    }
    let mut own = vec![];
    for (i, rt) in rts.iter().enumerate() {
        let _g = rt.enter();
        let (s2, d2) = (sh.clone(), done.clone());
        let (tx, rx) = tokio::sync::oneshot::channel();
        let p = Process::spawn(async move {
            runner(i, n, rounds, s2).await;
            d2.fetch_add(1, Ordering::SeqCst);
            let _ = tx.send(());
        });
        own.push((p, rx));
    }
    let ids: Vec<usize> = own.iter().map(|(p, _)| sh.pids.get(*p)).collect();
    sh.push(json!({"o":"runners","ids":ids}));
    let mut hs = vec![];
    for (rt, (_, rx)) in rts.into_iter().zip(own) {
        hs.push(std::thread::spawn(move || {
            let _ = rt.block_on(rx);
            rt.shutdown_background();
        }));
    }
    until(Duration::from_secs(90), || done.load(Ordering::SeqCst) == threads);
    let mut ev = std::mem::take(&mut *sh.log.lock().unwrap());
    if done.load(Ordering::SeqCst) != threads {
        ev.push(json!({"o":"hang"}));
        return json!({"id":s["id"],"ev":ev});
    }
    for h in hs {
        let _ = h.join();
    }
    json!({"id":s["id"],"ev":ev})
}
