//! Turns an execution that hangs into an observation.
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use serde_json::{json, Value};

static BEAT: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<Option<(Value, Arc<crate::core::Ctx>)>> = Mutex::new(None);

pub fn beat() {
    BEAT.fetch_add(1, Ordering::Relaxed);
}

pub fn set_current(id: Value, ctx: Arc<crate::core::Ctx>) {
    *CURRENT.lock().unwrap() = Some((id, ctx));
    beat();
}

pub fn start(limit_ms: u64) {
    std::thread::spawn(move || {
        let mut last = BEAT.load(Ordering::Relaxed);
        let mut idle = 0;
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let now = BEAT.load(Ordering::Relaxed);
            if now != last {
                last = now;
                idle = 0;
            } else {
                idle += 100;
            }
            if idle >= limit_ms {
                let mut ev = vec![];
                let mut id = Value::Null;
                if let Ok(c) = CURRENT.lock() {
                    if let Some((i, ctx)) = c.as_ref() {
                        id = i.clone();
                        if let Ok(l) = ctx.log.try_lock() {
                            ev = l.clone();
                        }
                    }
                }
                ev.push(json!({"o":"hang"}));
                crate::emit(&json!({"id":id,"ev":ev}));
                std::process::exit(3);
            }
        }
    });
}
