//! A current-thread runtime with exact detection of quiescence and virtual time.
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

use tokio::runtime::{Builder, Runtime};

#[derive(Default)]
struct Idle {
    parked: AtomicBool,
    waker: Mutex<Option<Waker>>,
}

pub struct QRt {
    rt: Option<Runtime>,
    idle: Arc<Idle>,
    _inhibit: Option<std::sync::mpsc::Sender<()>>,
}

struct UntilIdle(Arc<Idle>, bool);

impl Future for UntilIdle {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.1 && self.0.parked.swap(false, Ordering::SeqCst) {
            *self.0.waker.lock().unwrap() = None;
            return Poll::Ready(());
        }
        if !self.1 {
            self.0.parked.store(false, Ordering::SeqCst);
            self.1 = true;
        }
        *self.0.waker.lock().unwrap() = Some(cx.waker().clone());
        Poll::Pending
    }
}

impl QRt {
    pub fn new(paused: bool) -> Self {
        let idle = Arc::new(Idle::default());
        let i2 = idle.clone();
        let rt = Builder::new_current_thread()
            .enable_all()
            .start_paused(paused)
            .on_thread_park(move || {
                let w = i2.waker.lock().unwrap().clone();
                if let Some(w) = w {
                    i2.parked.store(true, Ordering::SeqCst);
                    w.wake();
                }
            })
            .build()
            .unwrap();
        // A running blocking task keeps the paused clock from advancing by itself.
        let mut inhibit = None;
        if paused {
            let (tx, rx) = std::sync::mpsc::channel::<()>();
            let _g = rt.enter();
            tokio::task::spawn_blocking(move || {
                let _ = rx.recv();
            });
            inhibit = Some(tx);
        }
        QRt { rt: Some(rt), idle, _inhibit: inhibit }
    }

    /// Runs everything that can run.
    pub fn run_idle(&self) {
        self.rt.as_ref().unwrap().block_on(UntilIdle(self.idle.clone(), false))
    }

    pub fn handle(&self) -> tokio::runtime::Handle {
        self.rt.as_ref().unwrap().handle().clone()
    }

    /// Advances the (paused) clock by one step, and runs what became ready.
    pub fn advance(&self, ms: u64) {
        crate::clock::step(ms as i64);
        self.rt.as_ref().unwrap().block_on(async {
            tokio::time::advance(Duration::from_millis(ms)).await;
        });
        self.run_idle();
    }
}

impl Drop for QRt {
    fn drop(&mut self) {
        self._inhibit = None;
        if let Some(rt) = self.rt.take() {
            rt.shutdown_background();
        }
    }
}
