use std::any::Any;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

use simcore::{Join, JoinOutcome};

pub struct JoinError {
    panic: Option<String>,
    id: Id,
}
impl JoinError {
    pub fn id(&self) -> Id {
        self.id
    }
    pub fn is_cancelled(&self) -> bool {
        self.panic.is_none()
    }
    pub fn is_panic(&self) -> bool {
        self.panic.is_some()
    }
    pub fn into_panic(self) -> Box<dyn Any + Send + 'static> {
        Box::new(self.panic.unwrap_or_default())
    }
    pub fn try_into_panic(self) -> Result<Box<dyn Any + Send + 'static>, JoinError> {
        if self.panic.is_some() {
            Ok(self.into_panic())
        } else {
            Err(self)
        }
    }
}
impl fmt::Debug for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.panic {
            Some(p) => write!(f, "JoinError::Panic({p})"),
            None => write!(f, "JoinError::Cancelled"),
        }
    }
}
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl std::error::Error for JoinError {}
impl From<JoinError> for std::io::Error {
    fn from(e: JoinError) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, e.to_string())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Id(u32);
impl fmt::Display for Id {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
pub fn try_id() -> Option<Id> {
    simcore::try_with(|s| s.task()).flatten().map(Id)
}
pub fn id() -> Id {
    try_id().expect("called outside of a task")
}

pub struct JoinHandle<T> {
    join: Join<T>,
    /// tokio's handles keep the task's allocation
    cell: Arc<[u8]>,
}
impl<T: 'static> JoinHandle<T> {
    pub(crate) fn start<F>(node: Option<u32>, name: &'static str, f: F) -> Self
    where
        F: Future<Output = T> + 'static,
    {
        let cell = vec![0u8; 128 + std::mem::size_of::<F>()].into();
        JoinHandle { join: simcore::spawn_on(node, name, f), cell }
    }
}
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        self.join.abort()
    }
    pub fn is_finished(&self) -> bool {
        self.join.is_finished()
    }
    pub fn abort_handle(&self) -> AbortHandle {
        AbortHandle { key: self.join.aborter(), cell: self.cell.clone() }
    }
    pub fn id(&self) -> Id {
        Id(self.join.id())
    }
}
impl<T> Unpin for JoinHandle<T> {}
impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "JoinHandle({})", self.join.id())
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let id = Id(self.join.id());
        self.join.poll_join(cx).map(|o| match o {
            JoinOutcome::Done(v) => Ok(v),
            JoinOutcome::Panicked(p) => Err(JoinError { panic: Some(p), id }),
            JoinOutcome::Cancelled => Err(JoinError { panic: None, id }),
        })
    }
}

#[derive(Clone, Debug)]
pub struct AbortHandle {
    key: (u32, u32),
    #[allow(dead_code)]
    cell: Arc<[u8]>,
}
impl AbortHandle {
    pub fn is_finished(&self) -> bool {
        simcore::finished_by(self.key.0, self.key.1)
    }
    pub fn id(&self) -> Id {
        Id(self.key.1)
    }
    pub fn abort(&self) {
        simcore::abort_by(self.key.0, self.key.1)
    }
}

pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    JoinHandle::start(None, simcore::short_name::<F>(), f)
}
pub fn spawn_local<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    JoinHandle::start(None, simcore::short_name::<F>(), f)
}
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    JoinHandle::start(None, "blocking", async move { f() })
}
pub fn block_in_place<F, R>(f: F) -> R
where
    F: FnOnce() -> R,
{
    f()
}

pub async fn yield_now() {
    struct Y(bool);
    impl Future for Y {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if self.0 {
                Poll::Ready(())
            } else {
                self.0 = true;
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        }
    }
    Y(false).await
}
pub async fn consume_budget() {
    std::future::poll_fn(|cx| {
        if simcore::coop_ready(cx) {
            simcore::coop_spend();
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    })
    .await
}
pub struct Unconstrained<F>(F);
impl<F: Future> Future for Unconstrained<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        // SAFETY: the field is pinned with the struct and never moved out of it
        let f = unsafe { self.map_unchecked_mut(|s| &mut s.0) };
        simcore::coop_unconstrained(|| f.poll(cx))
    }
}
pub fn unconstrained<F>(f: F) -> Unconstrained<F> {
    Unconstrained(f)
}

/// A set of tasks that are aborted when the set is dropped.
pub struct JoinSet<T> {
    tasks: Vec<JoinHandle<T>>,
}
impl<T> Default for JoinSet<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T> fmt::Debug for JoinSet<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "JoinSet({})", self.tasks.len())
    }
}
impl<T> JoinSet<T> {
    pub fn new() -> Self {
        Self { tasks: Vec::new() }
    }
    pub fn len(&self) -> usize {
        self.tasks.len()
    }
    pub fn is_empty(&self) -> bool {
        self.tasks.is_empty()
    }
}
impl<T: 'static> JoinSet<T> {
    pub fn spawn<F>(&mut self, f: F) -> AbortHandle
    where
        F: Future<Output = T> + Send + 'static,
        T: Send,
    {
        let h = spawn(f);
        let a = h.abort_handle();
        self.tasks.push(h);
        a
    }
    pub fn spawn_on<F>(&mut self, f: F, handle: &crate::runtime::Handle) -> AbortHandle
    where
        F: Future<Output = T> + Send + 'static,
        T: Send,
    {
        let h = handle.spawn(f);
        let a = h.abort_handle();
        self.tasks.push(h);
        a
    }
    pub fn spawn_local<F>(&mut self, f: F) -> AbortHandle
    where
        F: Future<Output = T> + 'static,
    {
        let h = spawn_local(f);
        let a = h.abort_handle();
        self.tasks.push(h);
        a
    }
    pub fn spawn_blocking<F>(&mut self, f: F) -> AbortHandle
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send,
    {
        let h = spawn_blocking(f);
        let a = h.abort_handle();
        self.tasks.push(h);
        a
    }
    pub async fn join_all(mut self) -> Vec<T> {
        let mut v = Vec::new();
        while let Some(r) = self.join_next().await {
            match r {
                Ok(x) => v.push(x),
                Err(e) => panic!("{e}"),
            }
        }
        v
    }
    pub async fn join_next_with_id(&mut self) -> Option<Result<(Id, T), JoinError>> {
        std::future::poll_fn(|cx| {
            if self.tasks.is_empty() {
                return Poll::Ready(None);
            }
            for i in 0..self.tasks.len() {
                if let Poll::Ready(r) = Pin::new(&mut self.tasks[i]).poll(cx) {
                    let id = self.tasks.swap_remove(i).id();
                    return Poll::Ready(Some(r.map(|v| (id, v))));
                }
            }
            Poll::Pending
        })
        .await
    }
    pub fn poll_join_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<T, JoinError>>> {
        if self.tasks.is_empty() {
            return Poll::Ready(None);
        }
        for i in 0..self.tasks.len() {
            if let Poll::Ready(r) = Pin::new(&mut self.tasks[i]).poll(cx) {
                self.tasks.swap_remove(i);
                return Poll::Ready(Some(r));
            }
        }
        Poll::Pending
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        std::future::poll_fn(|cx| self.poll_join_next(cx)).await
    }
    pub fn try_join_next(&mut self) -> Option<Result<T, JoinError>> {
        let mut cx = Context::from_waker(std::task::Waker::noop());
        match self.poll_join_next(&mut cx) {
            Poll::Ready(r) => r,
            Poll::Pending => None,
        }
    }
    pub fn abort_all(&mut self) {
        self.tasks.iter().for_each(|t| t.abort());
    }
    pub fn detach_all(&mut self) {
        self.tasks.clear();
    }
    pub async fn shutdown(&mut self) {
        self.abort_all();
        while self.join_next().await.is_some() {}
    }
}
impl<T> Drop for JoinSet<T> {
    fn drop(&mut self) {
        self.tasks.iter().for_each(|t| t.abort());
    }
}
