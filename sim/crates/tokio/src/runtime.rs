use std::future::Future;

use crate::task::JoinHandle;

#[derive(Clone, Debug)]
pub struct Handle {
    node: Option<u32>,
}
#[derive(Debug)]
pub struct TryCurrentError;
impl std::fmt::Display for TryCurrentError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("no runtime here")
    }
}
impl std::error::Error for TryCurrentError {}
pub struct EnterGuard<'a>(std::marker::PhantomData<&'a ()>);

impl Handle {
    /// The runtime of the simulated process the caller belongs to.
    pub fn current() -> Handle {
        Handle { node: Some(simcore::with(|s| s.node())) }
    }
    pub fn try_current() -> Result<Handle, TryCurrentError> {
        match simcore::try_with(|s| s.node()) {
            Some(n) => Ok(Handle { node: Some(n) }),
            None => Err(TryCurrentError),
        }
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        JoinHandle::start(self.node, simcore::short_name::<F>(), f)
    }
    pub fn spawn_blocking<F, R>(&self, f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        JoinHandle::start(self.node, "blocking", async move { f() })
    }
    pub fn enter(&self) -> EnterGuard<'_> {
        EnterGuard(std::marker::PhantomData)
    }
}
