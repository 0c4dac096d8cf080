//! tokio's oneshot channel with scheduling points.
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

use real_tokio::sync::oneshot as real;
use simcore::{point, P_ONESHOT};

pub mod error {
    pub use real_tokio::sync::oneshot::error::*;
}

pub struct Sender<T>(Option<real::Sender<T>>);
pub struct Receiver<T>(real::Receiver<T>);

pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let (s, r) = real::channel();
    (Sender(Some(s)), Receiver(r))
}

impl<T> Sender<T> {
    fn i(&self) -> &real::Sender<T> {
        self.0.as_ref().expect("sender present")
    }
    pub fn send(mut self, t: T) -> Result<(), T> {
        point(P_ONESHOT);
        let s = self.0.take().expect("sender present");
        let r = s.send(t);
        point(P_ONESHOT);
        r
    }
    pub async fn closed(&mut self) {
        std::future::poll_fn(|cx| self.poll_closed(cx)).await
    }
    pub fn is_closed(&self) -> bool {
        point(P_ONESHOT);
        self.i().is_closed()
    }
    pub fn poll_closed(&mut self, cx: &mut Context<'_>) -> Poll<()> {
        point(P_ONESHOT);
        self.0.as_mut().expect("sender present").poll_closed(cx)
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        if self.0.is_some() {
            point(P_ONESHOT);
        }
    }
}
impl<T> fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "oneshot::Sender")
    }
}

impl<T> Receiver<T> {
    pub fn close(&mut self) {
        point(P_ONESHOT);
        self.0.close()
    }
    pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
        point(P_ONESHOT);
        self.0.try_recv()
    }
}
impl<T> Future for Receiver<T> {
    type Output = Result<T, error::RecvError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        point(P_ONESHOT);
        if !simcore::coop_ready(cx) {
            return Poll::Pending;
        }
        let r = Pin::new(&mut self.0).poll(cx);
        if r.is_ready() {
            simcore::coop_spend();
        }
        r
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        point(P_ONESHOT);
    }
}
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "oneshot::Receiver")
    }
}
