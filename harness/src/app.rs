//! An application in a process of its own: the configuration and then orders come in as lines, what happens goes out as lines.
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::sync::{Mutex, OnceLock};
use std::time::Duration;

use hydra::*;
use serde_json::{json, Value};
use tokio::sync::mpsc;

static CFG: OnceLock<Mutex<Value>> = OnceLock::new();
type Boxes = HashMap<String, mpsc::UnboundedSender<String>>;
static ACTORS: OnceLock<Mutex<Boxes>> = OnceLock::new();

fn cfg() -> Value {
    CFG.get().unwrap().lock().unwrap().clone()
}

fn actors() -> std::sync::MutexGuard<'static, Boxes> {
    ACTORS.get_or_init(Default::default).lock().unwrap()
}

pub fn micros() -> i64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts) };
    ts.tv_sec * 1_000_000 + ts.tv_nsec / 1000
}

pub fn say(mut v: Value) {
    let mut out = std::io::stdout().lock();
    v["t"] = json!(micros());
    let _ = writeln!(out, "{v}");
    let _ = out.flush();
}

struct Gone;

impl Drop for Gone {
    fn drop(&mut self) {
        say(json!({"o":"gone"}));
    }
}

async fn root(app: Pid, mut rx: mpsc::UnboundedReceiver<String>) {
    let _gone = Gone;
    let c = cfg();
    if c["trap"] == true {
        Process::set_flags(ProcessFlags::TRAP_EXIT);
    }
    say(json!({"o":"up"}));
    loop {
        let order = tokio::select! {
            m = Process::receive::<()>() => {
                if let Message::System(SystemMessage::Exit(from, reason)) = m {
                    say(json!({"o":"rexit","from":if from == app {"app"} else {"x"},"r":crate::core::rs_str(&reason)}));
                    if from == app && c["onshut"] != "ignore" {
                        Process::sleep(Duration::from_millis(c["cleanup"].as_u64().unwrap_or(0))).await;
                        say(json!({"o":"rend","r":"normal"}));
                        return;
                    }
                }
                continue;
            }
            o = rx.recv() => o,
        };
        let Some(o) = order else { std::future::pending::<()>().await; continue };
        match o.as_str() {
            "ret" => {
                say(json!({"o":"rend","r":"normal"}));
                return;
            }
            "panic" => {
                say(json!({"o":"rend","r":"c:panic"}));
                panic!("to order");
            }
            "spoof" => Process::exit(app, ExitReason::from("x")),
            "spoofshut" => Process::exit(app, ExitReason::from("shutdown")),
            "spoofnormal" => Process::exit(app, ExitReason::Normal),
            r => {
                say(json!({"o":"rend","r":r}));
                Process::exit(Process::current(), crate::core::rs_of(r));
                std::future::pending::<()>().await;
            }
        }
    }
}

async fn side(mut rx: mpsc::UnboundedReceiver<String>) {
    while let Some(o) = rx.recv().await {
        match o.as_str() {
            "ret" => return,
            "panic" => panic!("to order"),
            r => {
                Process::exit(Process::current(), crate::core::rs_of(r));
                std::future::pending::<()>().await;
            }
        }
    }
    std::future::pending::<()>().await;
}

/// Does to others what it is told.
async fn stranger(app: Pid, rootp: Pid, mut rx: mpsc::UnboundedReceiver<String>) {
    while let Some(o) = rx.recv().await {
        match o.as_str() {
            "pokeapp" => Process::exit(app, ExitReason::from("x")),
            "pokeshut" => Process::exit(app, ExitReason::from("shutdown")),
            "msgapp" => Process::send(app, 17u32),
            "linkdie" => {
                Process::spawn(async move {
                    Process::link(app);
                    Process::exit(Process::current(), ExitReason::from("x"));
                    std::future::pending::<()>().await;
                });
            }
            "killroot" => {
                say(json!({"o":"rend","r":"kill"}));
                Process::exit(rootp, ExitReason::Kill);
            }
            _ => {}
        }
    }
    std::future::pending::<()>().await;
}

struct App;

impl Application for App {
    fn config() -> ApplicationConfig {
        let c = cfg();
        let r = if c["default"] == true { ApplicationConfig::default() } else { ApplicationConfig::new() };
        r.with_graceful_shutdown(c["graceful"] == true)
            .with_graceful_shutdown_timeout(Duration::from_millis(c["timeout"].as_u64().unwrap()))
    }

    async fn start(&self) -> Result<Pid, ExitReason> {
        let c = cfg();
        let app = Process::current();
        let boxes = |n: &str| {
            let (tx, rx) = mpsc::unbounded_channel();
            actors().insert(n.to_string(), tx);
            rx
        };
        for i in 0..c["sides"].as_u64().unwrap_or(0) {
            Process::spawn_link(side(boxes(&format!("side{i}"))));
        }
        match c["start"].as_str().unwrap() {
            "err" => {
                say(json!({"o":"startret","ok":false}));
                return Err(crate::core::rs_of(c["reason"].as_str().unwrap()));
            }
            "panic" => {
                say(json!({"o":"startret","ok":false}));
                panic!("to order");
            }
            _ => {}
        }
        let pid = if c["linked"] == false { Process::spawn(root(app, boxes("root"))) } else { Process::spawn_link(root(app, boxes("root"))) };
        Process::spawn(stranger(app, pid, boxes("x")));
        match c["start"].as_str().unwrap() {
            "slow" => Process::sleep(Duration::from_millis(60)).await,
            // The root is gone before start returns.
            "pre" => {
                let _ = actors()["root"].send("ret".into());
                while Process::alive(pid) {
                    Process::sleep(Duration::from_millis(1)).await;
                }
            }
            _ => {}
        }
        say(json!({"o":"startret","ok":true}));
        Ok(pid)
    }
}

fn run(c: Value) {
    let test = c["test"] == true;
    *CFG.get_or_init(Default::default).lock().unwrap() = c;
    say(json!({"o":"run"}));
    let r = std::panic::catch_unwind(|| if test { App.test() } else { App.run() });
    say(json!({"o":"returned","panic":r.is_err()}));
}

pub fn main() {
    let mut lines = std::io::stdin().lock().lines();
    let mut runs: Vec<Value> = serde_json::from_str(&lines.next().unwrap().unwrap()).unwrap();
    runs.reverse();
    std::thread::spawn(move || {
        while let Some(c) = runs.pop() {
            run(c);
        }
        std::process::exit(0);
    });
    for l in lines {
        let Ok(l) = l else { break };
        let (who, what) = l.split_once(' ').unwrap();
        if let Some(tx) = actors().get(who) {
            let _ = tx.send(what.to_string());
        }
    }
    // The driver has gone.
    std::process::exit(9);
}
