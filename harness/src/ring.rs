//! The hash ring, used by one or more threads under the scheduler.
use std::sync::{Arc, Mutex};

use hydra::HashRing;
use serde_json::{json, Value};

use crate::conc::{point, points, reset, schedule, settle, Pool};

/// A node; a copy of it takes a while.
struct V(i64);

impl Clone for V {
    fn clone(&self) -> Self {
        point();
        V(self.0)
    }
}

type Log = Arc<Mutex<Vec<Value>>>;

fn pairs(op: &Value) -> impl Iterator<Item = (i64, V)> + '_ {
    op["l"].as_array().unwrap().iter().map(|x| {
        point();
        (x[0].as_i64().unwrap(), V(x[1].as_i64().unwrap()))
    })
}

fn exec(r: &HashRing<V>, p: usize, op: &Value, log: &Log) {
    let mut b = json!({"e":"b","p":p,"o":op["o"],"k":op["k"].as_i64().unwrap_or(1)});
    for f in ["v", "l"] {
        if !op[f].is_null() {
            b[f] = op[f].clone();
        }
    }
    log.lock().unwrap().push(b);
    let k = op["k"].as_i64().unwrap_or(0);
    let v = V(op["v"].as_i64().unwrap_or(0));
    let id = |x: Option<V>| x.map(|v| v.0).unwrap_or(0);
    let res = match op["o"].as_str().unwrap() {
        "find" if op["m"].as_bool() == Some(true) => {
            let mut got = vec![];
            r.map_node(k, |x| got.push(x.map(|v| v.0).unwrap_or(0)));
            if got.len() == 1 {
                got[0]
            } else {
                -1
            }
        }
        "find" => id(r.find_node(k)),
        "addn" => id(r.add_node(k, v)),
        "remn" => id(r.remove_node(k)),
        "addo" => id(r.add_override(k, v)),
        "remo" => id(r.remove_override(k)),
        "addns" => {
            r.add_nodes(pairs(op));
            0
        }
        "setns" => {
            r.set_nodes(pairs(op));
            0
        }
        "addos" => {
            r.add_overrides(pairs(op));
            0
        }
        "seto" => {
            r.set_overrides(pairs(op));
            0
        }
        "clear" => {
            r.clear();
            0
        }
        o => panic!("harness: {o}"),
    };
    log.lock().unwrap().push(json!({"e":"e","p":p,"r":res}));
}

pub fn once(pool: &Pool, script: &Value, sch: &[(usize, i64)]) -> (Vec<Value>, Vec<i64>) {
    let n = pool.handles.len();
    let keys = script["n"].as_i64().unwrap();
    let r: Arc<HashRing<V>> = if keys % 2 == 0 { Arc::new(HashRing::new()) } else { Arc::default() };
    let mut ord = vec![];
    if script["hint"].as_bool() == Some(true) {
        // The order of the keys, from the ring itself: the specification decides whether it is one.
        for k in 1..=keys {
            r.add_node(k, V(k));
        }
        let mut k = 1;
        loop {
            ord.push(k);
            r.remove_node(k);
            let next = r.find_node(k).map(|v| v.0).unwrap_or(0);
            r.add_node(k, V(k));
            if next <= 1 || ord.len() as i64 == keys {
                break;
            }
            k = next;
        }
        r.set_nodes(std::iter::empty::<(i64, V)>());
        let mut all = ord.clone();
        all.sort();
        if all != (1..=keys).collect::<Vec<_>>() {
            return (vec![json!({"e":"badorder","ord":ord,"n":keys})], vec![0; n]);
        }
    }
    let log: Log = Arc::new(Mutex::new(vec![json!({"e":"ring","n":keys,"ord":ord})]));
    let none = vec![];
    for op in script["setup"].as_array().unwrap_or(&none) {
        exec(&r, 0, op, &log);
    }
    let empty = vec![];
    let race = script["race"].as_array().unwrap_or(&empty);
    let mut pts = vec![0; n];
    if !race.is_empty() {
        for (i, ops) in race.iter().enumerate() {
            let (r, ops, log) = (r.clone(), ops.as_array().unwrap().clone(), log.clone());
            pool.handles[i].spawn(async move {
                for op in &ops {
                    exec(&r, i, op, &log);
                }
            });
        }
        reset();
        schedule(n, sch);
        if !settle(n) {
            let mut ev = log.lock().unwrap().clone();
            ev.push(json!({"e":"hang"}));
            crate::emit(&json!({"id":script["id"],"ev":ev,"traces":[{"ev":ev,"sched":sch}]}));
            std::process::exit(3);
        }
        pts = points();
    }
    for op in script["after"].as_array().unwrap_or(&none) {
        exec(&r, 0, op, &log);
    }
    let ev = std::mem::take(&mut *log.lock().unwrap());
    (ev, pts)
}
