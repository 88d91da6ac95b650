//! tokio-like task API on the simulated scheduler
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

use crate::world::{kill_task, spawn_raw, TaskHandle};

#[derive(Debug)]
pub struct JoinError {
    cancelled: bool,
}
impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        self.cancelled
    }
    pub fn is_panic(&self) -> bool {
        !self.cancelled
    }
}
impl std::fmt::Display for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(if self.cancelled { "task was cancelled" } else { "task panicked" })
    }
}
impl std::error::Error for JoinError {}

struct Slot<T> {
    out: Option<Result<T, JoinError>>,
    finished: bool,
    waker: Option<Waker>,
}

struct Complete<T>(Arc<Mutex<Slot<T>>>);
impl<T> Drop for Complete<T> {
    fn drop(&mut self) {
        let w = {
            let mut s = self.0.lock().unwrap_or_else(|e| e.into_inner());
            if !s.finished {
                s.finished = true;
                s.out = Some(Err(JoinError { cancelled: !std::thread::panicking() }));
            }
            s.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
}

pub struct JoinHandle<T> {
    slot: Arc<Mutex<Slot<T>>>,
    task: Option<Arc<TaskHandle>>,
}

impl<T> std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("JoinHandle")
    }
}

impl<T> Unpin for JoinHandle<T> {}

impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        if let Some(t) = &self.task {
            kill_task(t);
        }
    }
    pub fn is_finished(&self) -> bool {
        self.slot.lock().unwrap().finished
    }
    pub fn abort_handle(&self) -> AbortHandle {
        AbortHandle { task: self.task.clone() }
    }
}

#[derive(Clone)]
pub struct AbortHandle {
    task: Option<Arc<TaskHandle>>,
}
impl AbortHandle {
    pub fn abort(&self) {
        if let Some(t) = &self.task {
            kill_task(t);
        }
    }
    pub fn is_finished(&self) -> bool {
        self.task.as_ref().map_or(true, |t| t.done.load(std::sync::atomic::Ordering::Relaxed))
    }
}

impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.slot.lock().unwrap();
        if let Some(r) = s.out.take() {
            return Poll::Ready(r);
        }
        s.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

fn spawn_any<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let slot = Arc::new(Mutex::new(Slot { out: None, finished: false, waker: None }));
    let complete = Complete(slot.clone());
    let task = spawn_raw(Box::pin(async move {
        let c = complete;
        let out = f.await;
        let mut s = c.0.lock().unwrap();
        s.out = Some(Ok(out));
        s.finished = true;
    }));
    JoinHandle { slot, task }
}

#[track_caller]
pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    spawn_any(f)
}

pub fn spawn_local<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    spawn_any(f)
}

pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    spawn_any(async move { f() })
}

pub fn block_in_place<F: FnOnce() -> R, R>(f: F) -> R {
    f()
}

pub async fn yield_now() {
    struct Y(bool);
    impl Future for Y {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if self.0 {
                return Poll::Ready(());
            }
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
    Y(false).await
}

#[derive(Clone, Debug)]
pub struct Handle;
impl Handle {
    pub fn current() -> Self {
        Handle
    }
    pub fn try_current() -> Result<Self, JoinError> {
        Ok(Handle)
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        spawn_any(f)
    }
    pub fn spawn_blocking<F, R>(&self, f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        spawn_blocking(f)
    }
}

pub struct JoinSet<T> {
    handles: RefCell<Vec<JoinHandle<T>>>,
}
impl<T: 'static> Default for JoinSet<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: 'static> JoinSet<T> {
    pub fn new() -> Self {
        Self { handles: RefCell::new(Vec::new()) }
    }
    pub fn spawn<F>(&mut self, f: F) -> AbortHandle
    where
        F: Future<Output = T> + Send + 'static,
        T: Send,
    {
        let h = spawn_any(f);
        let a = h.abort_handle();
        self.handles.borrow_mut().push(h);
        a
    }
    pub fn len(&self) -> usize {
        self.handles.borrow().len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn abort_all(&mut self) {
        for h in self.handles.borrow().iter() {
            h.abort();
        }
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        std::future::poll_fn(|cx| {
            let mut hs = self.handles.borrow_mut();
            if hs.is_empty() {
                return Poll::Ready(None);
            }
            for i in 0..hs.len() {
                if let Poll::Ready(r) = Pin::new(&mut hs[i]).poll(cx) {
                    hs.swap_remove(i);
                    return Poll::Ready(Some(r));
                }
            }
            Poll::Pending
        })
        .await
    }
}
impl<T> Drop for JoinSet<T> {
    fn drop(&mut self) {
        for h in self.handles.borrow().iter() {
            h.abort();
        }
    }
}
