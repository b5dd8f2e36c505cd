use mccore::Exit;
use std::any::Any;
use std::fmt;
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

enum Repr {
    Cancelled,
    Panic(Mutex<Box<dyn Any + Send + 'static>>),
}

pub struct JoinError(Repr);

impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        matches!(self.0, Repr::Cancelled)
    }
    pub fn is_panic(&self) -> bool {
        matches!(self.0, Repr::Panic(_))
    }
    pub fn into_panic(self) -> Box<dyn Any + Send + 'static> {
        self.try_into_panic().ok().expect("`JoinError` reason is not a panic.")
    }
    pub fn try_into_panic(self) -> Result<Box<dyn Any + Send + 'static>, JoinError> {
        match self.0 {
            Repr::Panic(p) => Ok(p.into_inner().unwrap()),
            _ => Err(self),
        }
    }
}

impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.0 {
            Repr::Cancelled => write!(f, "cancelled"),
            Repr::Panic(_) => write!(f, "panic"),
        }
    }
}

impl fmt::Debug for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.0 {
            Repr::Cancelled => write!(f, "JoinError::Cancelled"),
            Repr::Panic(_) => write!(f, "JoinError::Panic(...)"),
        }
    }
}

impl std::error::Error for JoinError {}

impl From<JoinError> for std::io::Error {
    fn from(src: JoinError) -> std::io::Error {
        std::io::Error::new(std::io::ErrorKind::Other, src.to_string())
    }
}

struct Shared<T> {
    result: Option<Result<T, JoinError>>,
    done: bool,
    waker: Option<Waker>,
    detached: bool,
}

pub struct JoinHandle<T> {
    shared: Arc<Mutex<Shared<T>>>,
    id: Option<mccore::TaskId>,
}

#[derive(Clone)]
pub struct AbortHandle {
    id: Option<mccore::TaskId>,
}

impl fmt::Debug for AbortHandle {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("AbortHandle").finish()
    }
}

impl AbortHandle {
    pub fn is_finished(&self) -> bool {
        self.id.map_or(true, mccore::task_done)
    }
    pub fn abort(&self) {
        if let Some(id) = self.id {
            mccore::abort(id)
        }
    }
}

impl<T> Unpin for JoinHandle<T> {}

impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        if let Some(id) = self.id {
            mccore::log(|| format!("abort task {id}"));
            mccore::abort(id)
        }
    }
    pub fn abort_handle(&self) -> AbortHandle {
        AbortHandle { id: self.id }
    }
    pub fn is_finished(&self) -> bool {
        self.shared.lock().unwrap().done
    }
}

impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if !mccore::coop_take("join") {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let mut s = self.shared.lock().unwrap();
        if let Some(r) = s.result.take() {
            return Poll::Ready(r);
        }
        assert!(!s.done, "JoinHandle polled after completion");
        s.waker = Some(cx.waker().clone());
        drop(s);
        mccore::coop_restore();
        Poll::Pending
    }
}

impl<T> Drop for JoinHandle<T> {
    fn drop(&mut self) {
        let r = {
            let mut s = self.shared.lock().unwrap();
            s.detached = true;
            s.result.take()
        };
        drop(r);
    }
}

impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("JoinHandle").finish()
    }
}

fn short_name<T>() -> &'static str {
    std::any::type_name::<T>()
}

fn spawn_inner<F, T>(name: &'static str, fut: F) -> JoinHandle<T>
where
    F: Future<Output = T> + 'static,
    T: 'static,
{
    let shared = Arc::new(Mutex::new(Shared {
        result: None,
        done: false,
        waker: None,
        detached: false,
    }));
    let (s1, s2) = (shared.clone(), shared.clone());
    let wrapped = async move {
        let out = fut.await;
        let drop_out = {
            let mut s = s1.lock().unwrap();
            if s.detached {
                Some(out)
            } else {
                s.result = Some(Ok(out));
                None
            }
        };
        drop(drop_out);
    };
    let on_exit = Box::new(move |e: Exit| {
        let waker = {
            let mut s = s2.lock().unwrap();
            s.done = true;
            match e {
                Exit::Finished | Exit::Cancelled => {
                    if s.result.is_none() {
                        s.result = Some(Err(JoinError(Repr::Cancelled)));
                    }
                }
                Exit::Panicked(p) => {
                    s.result = Some(Err(JoinError(Repr::Panic(Mutex::new(p)))));
                }
            }
            s.waker.take()
        };
        if let Some(w) = waker {
            w.wake()
        }
    });
    let id = mccore::spawn(name, Box::pin(wrapped), on_exit);
    JoinHandle { shared, id }
}

/// Not a scheduling point: callers may hold (std) locks.
pub fn spawn<T>(future: T) -> JoinHandle<T::Output>
where
    T: Future + Send + 'static,
    T::Output: Send + 'static,
{
    spawn_inner(short_name::<T>(), future)
}

pub fn spawn_local<T>(future: T) -> JoinHandle<T::Output>
where
    T: Future + 'static,
    T::Output: 'static,
{
    spawn_inner(short_name::<T>(), future)
}

/// Spawns a task with a name for traces (used by the scenarios).
pub fn spawn_named<T>(name: &'static str, future: T) -> JoinHandle<T::Output>
where
    T: Future + 'static,
    T::Output: 'static,
{
    spawn_inner(name, future)
}

pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    spawn_inner("blocking", async move { f() })
}

pub fn block_in_place<F, R>(f: F) -> R
where
    F: FnOnce() -> R,
{
    f()
}

pub async fn yield_now() {
    struct Y(bool);
    impl Future for Y {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if self.0 {
                return Poll::Ready(());
            }
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
    Y(false).await
}

pub struct Unconstrained<F>(Pin<Box<F>>);
impl<F: Future> Future for Unconstrained<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        self.0.as_mut().poll(cx)
    }
}
pub fn unconstrained<F: Future>(inner: F) -> Unconstrained<F> {
    Unconstrained(Box::pin(inner))
}

/// Runs `f` and turns a panic into an error.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn Any + Send>> {
    std::panic::catch_unwind(AssertUnwindSafe(f))
}

/// A collection of tasks (subset of tokio's unstable JoinSet, stable later).
pub struct JoinSet<T> {
    handles: Vec<JoinHandle<T>>,
}
impl<T: 'static> JoinSet<T> {
    pub fn new() -> Self {
        JoinSet { handles: vec![] }
    }
    pub fn len(&self) -> usize {
        self.handles.len()
    }
    pub fn is_empty(&self) -> bool {
        self.handles.is_empty()
    }
    pub fn spawn<F>(&mut self, f: F) -> AbortHandle
    where
        F: Future<Output = T> + Send + 'static,
        T: Send,
    {
        let h = spawn(f);
        let a = h.abort_handle();
        self.handles.push(h);
        a
    }
    pub fn abort_all(&mut self) {
        for h in &self.handles {
            h.abort()
        }
    }
    pub fn detach_all(&mut self) {
        self.handles.clear()
    }
    pub async fn shutdown(&mut self) {
        self.abort_all();
        while self.join_next().await.is_some() {}
    }
    pub fn try_join_next(&mut self) -> Option<Result<T, JoinError>> {
        let i = self.handles.iter().position(|h| h.is_finished())?;
        let h = self.handles.remove(i);
        let r = h.shared.lock().unwrap().result.take();
        r
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        if self.handles.is_empty() {
            return None;
        }
        std::future::poll_fn(|cx| {
            for i in 0..self.handles.len() {
                if let Poll::Ready(r) = Pin::new(&mut self.handles[i]).poll(cx) {
                    self.handles.remove(i);
                    return Poll::Ready(Some(r));
                }
            }
            Poll::Pending
        })
        .await
    }
}
impl<T: 'static> Default for JoinSet<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T> fmt::Debug for JoinSet<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("JoinSet").field("len", &self.handles.len()).finish()
    }
}
impl<T> Drop for JoinSet<T> {
    fn drop(&mut self) {
        for h in &self.handles {
            h.abort()
        }
    }
}
