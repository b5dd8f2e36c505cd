use crate::task::JoinHandle;
use std::fmt;
use std::future::Future;

#[derive(Clone, Debug)]
pub struct Handle(());

#[derive(Debug)]
pub struct TryCurrentError(());

impl TryCurrentError {
    pub fn is_missing_context(&self) -> bool {
        true
    }
}

impl fmt::Display for TryCurrentError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("there is no reactor running, must be called from the context of a Tokio 1.x runtime")
    }
}
impl std::error::Error for TryCurrentError {}

impl Handle {
    pub fn current() -> Handle {
        Handle::try_current().expect("no runtime")
    }
    pub fn try_current() -> Result<Handle, TryCurrentError> {
        if mccore::in_world() {
            Ok(Handle(()))
        } else {
            Err(TryCurrentError(()))
        }
    }
    pub fn spawn<F>(&self, future: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::spawn(future)
    }
    pub fn spawn_blocking<F, R>(&self, f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        crate::task::spawn_blocking(f)
    }
}
