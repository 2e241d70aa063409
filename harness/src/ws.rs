//! A websocket server in a process of its own; handlers do what the frames and messages they get say.
use std::collections::HashMap;
use std::io::BufRead;
use std::net::SocketAddr;
use std::sync::{Mutex, OnceLock};
use std::time::Duration;

use hydra::*;
use hydra_websockets::*;
use serde_json::{json, Value};
use tokio::sync::{mpsc, oneshot};

use crate::app::say;
use crate::core::{rs_of, rs_str};

static PIDS: OnceLock<Mutex<HashMap<i64, Pid>>> = OnceLock::new();
static WATCH: OnceLock<mpsc::UnboundedSender<(i64, Pid, oneshot::Sender<()>)>> = OnceLock::new();

struct H {
    c: i64,
    init: Value,
}

fn commands(x: &Value) -> Option<WebsocketCommands> {
    let l = x["cmds"].as_array()?;
    let mut r = WebsocketCommands::new();
    for m in l {
        let d = m["d"].as_str().unwrap().to_string();
        match m["k"].as_str().unwrap() {
            "text" => r.send(WebsocketMessage::text(d)),
            "bin" => r.send(WebsocketMessage::binary(d.into_bytes())),
            "ping" => r.send(WebsocketMessage::Ping(d.into_bytes().into())),
            _ => {
                let (code, why) = d.split_once(':').unwrap();
                r.close(CloseCode::from(code.parse::<u16>().unwrap()), why)
            }
        }
    }
    Some(r)
}

impl H {
    async fn act(&self, k: &str, d: String, x: &Value) -> Result<Option<WebsocketCommands>, ExitReason> {
        say(json!({"o":"cbb","c":self.c,"k":k,"d":d}));
        if let Some(ms) = x["sleep"].as_u64() {
            Process::sleep(Duration::from_millis(ms)).await;
        }
        if x["panic"] == true {
            panic!("to order");
        }
        say(json!({"o":"cbe","c":self.c}));
        if let Some(e) = x["err"].as_str() {
            if !e.is_empty() {
                return Err(rs_of(e));
            }
        }
        Ok(commands(x))
    }
}

impl WebsocketHandler for H {
    type Message = String;

    fn accept(_: SocketAddr, request: &WebsocketRequest, response: WebsocketResponse) -> Result<(WebsocketResponse, Self), ExitReason> {
        let p = request.uri().path().to_string();
        let mut i = p.split('/').skip(1);
        let c = i.next().unwrap().parse::<i64>().unwrap();
        let hex = i.next().unwrap_or("");
        let bytes: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
        let init: Value = serde_json::from_slice(&bytes).unwrap();
        if init["deny"] == true {
            return Err(ExitReason::from("denied"));
        }
        Ok((response, H { c, init }))
    }

    async fn websocket_init(&mut self) -> Result<Option<WebsocketCommands>, ExitReason> {
        if self.init["trap"] == true {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
        }
        PIDS.get().unwrap().lock().unwrap().insert(self.c, Process::current());
        let (tx, rx) = oneshot::channel();
        let _ = WATCH.get().unwrap().send((self.c, Process::current(), tx));
        let _ = rx.await;
        let x = self.init.clone();
        self.act("init", String::new(), &x).await
    }

    async fn websocket_handle(&mut self, message: WebsocketMessage) -> Result<Option<WebsocketCommands>, ExitReason> {
        match message {
            WebsocketMessage::Text(t) => {
                let x: Value = serde_json::from_str(t.as_str()).unwrap_or(json!({"id":"?"}));
                let id = x["id"].as_str().unwrap().to_string();
                self.act("text", id, &x).await
            }
            WebsocketMessage::Binary(b) => {
                let x: Value = serde_json::from_slice(&b).unwrap_or(json!({"id":"?"}));
                let id = x["id"].as_str().unwrap().to_string();
                self.act("bin", id, &x).await
            }
            WebsocketMessage::Ping(b) => self.act("ping", String::from_utf8_lossy(&b).to_string(), &Value::Null).await,
            WebsocketMessage::Pong(b) => self.act("pong", String::from_utf8_lossy(&b).to_string(), &Value::Null).await,
            WebsocketMessage::Close(f) => {
                let d = f.map(|f| format!("{}:{}", u16::from(f.code), f.reason)).unwrap_or_default();
                let x = self.init["onclose"].clone();
                self.act("close", d, &x).await
            }
            _ => self.act("frame", String::new(), &Value::Null).await,
        }
    }

    async fn websocket_info(&mut self, info: Message<String>) -> Result<Option<WebsocketCommands>, ExitReason> {
        match info {
            Message::User(s) => {
                let x: Value = serde_json::from_str(&s).unwrap();
                let id = x["id"].as_str().unwrap().to_string();
                self.act("info", id, &x).await
            }
            Message::System(SystemMessage::Exit(_, r)) => self.act("sys", rs_str(&r), &Value::Null).await,
            _ => self.act("sys", "?".into(), &Value::Null).await,
        }
    }

    async fn terminate(&mut self, reason: ExitReason) {
        say(json!({"o":"term","c":self.c,"r":rs_str(&reason)}));
        if let Some(ms) = self.init["tsleep"].as_u64() {
            Process::sleep(Duration::from_millis(ms)).await;
        }
        say(json!({"o":"terme","c":self.c}));
    }
}

async fn watcher(mut rx: mpsc::UnboundedReceiver<(i64, Pid, oneshot::Sender<()>)>) {
    let mut refs: HashMap<Reference, i64> = HashMap::new();
    loop {
        tokio::select! {
            m = rx.recv() => {
                if let Some((c, pid, ack)) = m {
                    refs.insert(Process::monitor(pid), c);
                    let _ = ack.send(());
                }
            }
            m = Process::receive::<()>() => {
                if let Message::System(SystemMessage::ProcessDown(_, r, reason)) = m {
                    let mut reason = rs_str(&reason);
                    if reason.contains("to order") {
                        reason = "c:panic".into();
                    }
                    if let Some(c) = refs.get(&r) {
                        say(json!({"o":"down","c":c,"r":reason}));
                    }
                }
            }
        }
    }
}

async fn orders(mut rx: mpsc::UnboundedReceiver<Value>, server: Pid) {
    while let Some(o) = rx.recv().await {
        let c = o["c"].as_i64().unwrap_or(0);
        let pid = PIDS.get().unwrap().lock().unwrap().get(&c).copied();
        match o["o"].as_str().unwrap() {
            "info" => {
                if let Some(p) = pid {
                    say(json!({"o":"sinfo","c":c,"x":o["x"]}));
                    Process::send(p, o["x"].to_string());
                }
            }
            "exit" => {
                if let Some(p) = pid {
                    say(json!({"o":"sexit","c":c,"r":o["r"]}));
                    Process::exit(p, rs_of(o["r"].as_str().unwrap()));
                }
            }
            "alive" => say(json!({"o":"server","alive":Process::alive(server)})),
            _ => {}
        }
    }
    std::future::pending::<()>().await
}

pub fn main() {
    let mut lines = std::io::stdin().lock().lines();
    let cfg: Value = serde_json::from_str(&lines.next().unwrap().unwrap()).unwrap();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
    let _ = PIDS.set(Default::default());
    let (tx, rx) = mpsc::unbounded_channel();
    let (wtx, wrx) = mpsc::unbounded_channel();
    let _ = WATCH.set(wtx);
    rt.spawn(async move {
        Process::spawn(watcher(wrx));
        Process::spawn(async move {
            let mut c = WebsocketServerConfig::new(format!("127.0.0.1:{}", cfg["port"]).parse().unwrap());
            if let Some(ms) = cfg["hs"].as_u64() {
                c = c.handshake_timeout(Duration::from_millis(ms));
            }
            if let Some(n) = cfg["maxmsg"].as_u64() {
                c = c.max_message_size(Some(n as usize));
            }
            if let Some(n) = cfg["maxframe"].as_u64() {
                c = c.max_frame_size(Some(n as usize));
            }
            match WebsocketServer::<H>::new(c).start(GenServerOptions::new()).await {
                Ok(pid) => {
                    Process::spawn(orders(rx, pid));
                    say(json!({"o":"ready"}));
                }
                Err(e) => {
                    say(json!({"o":"failed","r":rs_str(&e)}));
                    std::process::exit(0);
                }
            }
            std::future::pending::<()>().await
        });
    });
    for l in lines {
        let Ok(l) = l else { break };
        let _ = tx.send(serde_json::from_str(&l).unwrap());
    }
    std::process::exit(0);
}
