mod app;
mod clock;
mod conc;
mod core;
mod gs;
mod ident;
mod node;
mod reg;
mod ring;
mod rt;
mod sema;
mod sup;
mod watch;
mod ws;

use std::io::{BufRead, Write};

use serde_json::Value;

pub fn emit(v: &Value) {
    let mut out = std::io::stdout().lock();
    let _ = writeln!(out, "{v}");
    let _ = out.flush();
}

fn scripts() -> Vec<Value> {
    std::io::stdin().lock().lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect()
}

fn main() {
    let mode = std::env::args().nth(1).unwrap_or_default();
    if std::env::var("VH_PANICS").is_err() {
        std::panic::set_hook(Box::new(|info| {
            // Failures of the harness itself stay visible.
            let s = info.to_string();
            if s.contains("harness:") {
                eprintln!("{s}");
            }
        }));
    }
    match mode.as_str() {
        "core" => {
            clock::freeze();
            watch::start(20_000);
            for (n, s) in scripts().iter().enumerate() {
                let v = core::run_script(s, n);
                emit(&v);
            }
        }
        "conc" => {
            clock::freeze();
            watch::start(30_000);
            conc::main(scripts(), conc::once);
        }
        "sema" => {
            clock::freeze();
            watch::start(30_000);
            for s in scripts() {
                emit(&sema::run_script(&s));
            }
        }
        "ident" => {
            for s in scripts() {
                emit(&ident::run_script(&s));
            }
        }
        "node" => node::main(),
        "ws" => ws::main(),
        "app" => app::main(),
        "ring" => {
            clock::freeze();
            watch::start(30_000);
            conc::STUCK.store(10, std::sync::atomic::Ordering::Relaxed);
            conc::main(scripts(), ring::once);
        }
        m => {
            eprintln!("unknown mode {m}");
            std::process::exit(2);
        }
    }
}
