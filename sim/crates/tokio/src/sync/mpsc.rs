//! tokio's mpsc channels with scheduling points and the cooperative budget.
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

use real_tokio::sync::mpsc as real;
use simcore::{coop_ready, coop_spend, point, P_MPSC};

pub mod error {
    pub use real_tokio::sync::mpsc::error::*;
    #[derive(Debug, PartialEq, Eq, Clone, Copy)]
    pub enum SendTimeoutError<T> {
        Timeout(T),
        Closed(T),
    }
    impl<T> std::fmt::Display for SendTimeoutError<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(match self {
                SendTimeoutError::Timeout(_) => "timed out waiting on send operation",
                SendTimeoutError::Closed(_) => "channel closed",
            })
        }
    }
    impl<T: std::fmt::Debug> std::error::Error for SendTimeoutError<T> {}
}
use error::{SendError, SendTimeoutError, TryRecvError, TrySendError};

async fn coop<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    std::future::poll_fn(move |cx| {
        point(P_MPSC);
        if !coop_ready(cx) {
            return Poll::Pending;
        }
        let r = f.as_mut().poll(cx);
        if r.is_ready() {
            coop_spend();
            point(P_MPSC);
        }
        r
    })
    .await
}

macro_rules! debug_as {
    ($t:ident<$l:lifetime>, $n:literal) => {
        impl<T> fmt::Debug for $t<'_, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str($n)
            }
        }
    };
    ($t:ident, $n:literal) => {
        impl<T> fmt::Debug for $t<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str($n)
            }
        }
    };
}

// ------------------------------------------------------------ bounded

pub struct Sender<T>(Option<real::Sender<T>>);
pub struct WeakSender<T>(real::WeakSender<T>);
pub struct Receiver<T>(real::Receiver<T>);
pub struct Permit<'a, T>(Option<real::Permit<'a, T>>);
pub struct OwnedPermit<T>(Option<real::OwnedPermit<T>>);
pub struct PermitIterator<'a, T>(real::PermitIterator<'a, T>);
debug_as!(Sender, "Sender");
debug_as!(WeakSender, "WeakSender");
debug_as!(Receiver, "Receiver");
debug_as!(OwnedPermit, "OwnedPermit");
debug_as!(Permit<'a>, "Permit");

#[track_caller]
pub fn channel<T>(buffer: usize) -> (Sender<T>, Receiver<T>) {
    let (s, r) = real::channel(buffer);
    (Sender(Some(s)), Receiver(r))
}

impl<T> Sender<T> {
    fn i(&self) -> &real::Sender<T> {
        self.0.as_ref().expect("sender present")
    }
    pub async fn send(&self, value: T) -> Result<(), SendError<T>> {
        coop(self.i().send(value)).await
    }
    pub async fn send_timeout(&self, value: T, d: std::time::Duration) -> Result<(), SendTimeoutError<T>> {
        match crate::time::timeout(d, self.reserve()).await {
            Err(_) => Err(SendTimeoutError::Timeout(value)),
            Ok(Err(_)) => Err(SendTimeoutError::Closed(value)),
            Ok(Ok(permit)) => {
                permit.send(value);
                Ok(())
            }
        }
    }
    pub async fn closed(&self) {
        coop(self.i().closed()).await
    }
    pub fn try_send(&self, message: T) -> Result<(), TrySendError<T>> {
        point(P_MPSC);
        let r = self.i().try_send(message);
        point(P_MPSC);
        r
    }
    pub fn blocking_send(&self, value: T) -> Result<(), SendError<T>> {
        match self.try_send(value) {
            Ok(()) => Ok(()),
            Err(TrySendError::Closed(v)) => Err(SendError(v)),
            Err(TrySendError::Full(_)) => panic!("blocking_send on a full channel inside a runtime"),
        }
    }
    pub fn is_closed(&self) -> bool {
        point(P_MPSC);
        self.i().is_closed()
    }
    pub async fn reserve(&self) -> Result<Permit<'_, T>, SendError<()>> {
        coop(self.i().reserve()).await.map(|p| Permit(Some(p)))
    }
    pub async fn reserve_many(&self, n: usize) -> Result<PermitIterator<'_, T>, SendError<()>> {
        coop(self.i().reserve_many(n)).await.map(PermitIterator)
    }
    pub async fn reserve_owned(mut self) -> Result<OwnedPermit<T>, SendError<()>> {
        let s = self.0.take().expect("sender present");
        coop(s.reserve_owned()).await.map(|p| OwnedPermit(Some(p)))
    }
    pub fn try_reserve(&self) -> Result<Permit<'_, T>, TrySendError<()>> {
        point(P_MPSC);
        self.i().try_reserve().map(|p| Permit(Some(p)))
    }
    pub fn try_reserve_many(&self, n: usize) -> Result<PermitIterator<'_, T>, TrySendError<()>> {
        point(P_MPSC);
        self.i().try_reserve_many(n).map(PermitIterator)
    }
    pub fn try_reserve_owned(mut self) -> Result<OwnedPermit<T>, TrySendError<Self>> {
        point(P_MPSC);
        let s = self.0.take().expect("sender present");
        match s.try_reserve_owned() {
            Ok(p) => Ok(OwnedPermit(Some(p))),
            Err(TrySendError::Full(s)) => Err(TrySendError::Full(Sender(Some(s)))),
            Err(TrySendError::Closed(s)) => Err(TrySendError::Closed(Sender(Some(s)))),
        }
    }
    pub fn same_channel(&self, o: &Self) -> bool {
        self.i().same_channel(o.i())
    }
    pub fn capacity(&self) -> usize {
        point(P_MPSC);
        self.i().capacity()
    }
    pub fn max_capacity(&self) -> usize {
        self.i().max_capacity()
    }
    pub fn downgrade(&self) -> WeakSender<T> {
        WeakSender(self.i().downgrade())
    }
    pub fn strong_count(&self) -> usize {
        self.i().strong_count()
    }
    pub fn weak_count(&self) -> usize {
        self.i().weak_count()
    }
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        Sender(self.0.clone())
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        if let Some(s) = self.0.take() {
            point(P_MPSC);
            drop(s);
        }
    }
}
impl<T> Clone for WeakSender<T> {
    fn clone(&self) -> Self {
        WeakSender(self.0.clone())
    }
}
impl<T> WeakSender<T> {
    pub fn upgrade(&self) -> Option<Sender<T>> {
        point(P_MPSC);
        self.0.upgrade().map(|s| Sender(Some(s)))
    }
    pub fn strong_count(&self) -> usize {
        self.0.strong_count()
    }
    pub fn weak_count(&self) -> usize {
        self.0.weak_count()
    }
}
impl<T> Permit<'_, T> {
    pub fn send(mut self, value: T) {
        point(P_MPSC);
        self.0.take().expect("permit present").send(value)
    }
}
impl<T> Drop for Permit<'_, T> {
    fn drop(&mut self) {
        if self.0.is_some() {
            point(P_MPSC);
        }
    }
}
impl<T> OwnedPermit<T> {
    pub fn send(mut self, value: T) -> Sender<T> {
        point(P_MPSC);
        let s = Sender(Some(self.0.take().expect("permit present").send(value)));
        point(P_MPSC);
        s
    }
    pub fn release(mut self) -> Sender<T> {
        point(P_MPSC);
        Sender(Some(self.0.take().expect("permit present").release()))
    }
}
impl<T> Drop for OwnedPermit<T> {
    fn drop(&mut self) {
        if self.0.is_some() {
            point(P_MPSC);
        }
    }
}
impl<'a, T> Iterator for PermitIterator<'a, T> {
    type Item = Permit<'a, T>;
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next().map(|p| Permit(Some(p)))
    }
}

macro_rules! receiver {
    ($t:ident, $n:literal) => {
        impl<T> $t<T> {
            pub async fn recv(&mut self) -> Option<T> {
                std::future::poll_fn(|cx| self.poll_recv(cx)).await
            }
            pub async fn recv_many(&mut self, buffer: &mut Vec<T>, limit: usize) -> usize {
                std::future::poll_fn(|cx| self.poll_recv_many(cx, buffer, limit)).await
            }
            pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
                point(P_MPSC);
                self.0.try_recv()
            }
            pub fn close(&mut self) {
                point(P_MPSC);
                self.0.close()
            }
            pub fn is_closed(&self) -> bool {
                point(P_MPSC);
                self.0.is_closed()
            }
            pub fn is_empty(&self) -> bool {
                point(P_MPSC);
                self.0.is_empty()
            }
            pub fn len(&self) -> usize {
                point(P_MPSC);
                self.0.len()
            }
            pub fn sender_strong_count(&self) -> usize {
                self.0.sender_strong_count()
            }
            pub fn sender_weak_count(&self) -> usize {
                self.0.sender_weak_count()
            }
            pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<T>> {
                point(P_MPSC);
                if !coop_ready(cx) {
                    return Poll::Pending;
                }
                let r = self.0.poll_recv(cx);
                if r.is_ready() {
                    coop_spend();
                }
                point(P_MPSC);
                r
            }
            pub fn poll_recv_many(
                &mut self,
                cx: &mut Context<'_>,
                buffer: &mut Vec<T>,
                limit: usize,
            ) -> Poll<usize> {
                point(P_MPSC);
                if !coop_ready(cx) {
                    return Poll::Pending;
                }
                let r = self.0.poll_recv_many(cx, buffer, limit);
                if r.is_ready() {
                    coop_spend();
                }
                point(P_MPSC);
                r
            }
        }
        impl<T> Drop for $t<T> {
            fn drop(&mut self) {
                point(P_MPSC);
            }
        }
    };
}
receiver!(Receiver, "Receiver");
receiver!(UnboundedReceiver, "UnboundedReceiver");
impl<T> Receiver<T> {
    pub fn capacity(&self) -> usize {
        self.0.capacity()
    }
    pub fn max_capacity(&self) -> usize {
        self.0.max_capacity()
    }
}

// ------------------------------------------------------------ unbounded

pub struct UnboundedSender<T>(Option<real::UnboundedSender<T>>);
pub struct WeakUnboundedSender<T>(real::WeakUnboundedSender<T>);
pub struct UnboundedReceiver<T>(real::UnboundedReceiver<T>);
debug_as!(UnboundedSender, "UnboundedSender");
debug_as!(WeakUnboundedSender, "WeakUnboundedSender");
debug_as!(UnboundedReceiver, "UnboundedReceiver");

pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
    let (s, r) = real::unbounded_channel();
    (UnboundedSender(Some(s)), UnboundedReceiver(r))
}
impl<T> UnboundedSender<T> {
    fn i(&self) -> &real::UnboundedSender<T> {
        self.0.as_ref().expect("sender present")
    }
    pub fn send(&self, message: T) -> Result<(), SendError<T>> {
        point(P_MPSC);
        let r = self.i().send(message);
        point(P_MPSC);
        r
    }
    pub async fn closed(&self) {
        coop(self.i().closed()).await
    }
    pub fn is_closed(&self) -> bool {
        point(P_MPSC);
        self.i().is_closed()
    }
    pub fn same_channel(&self, o: &Self) -> bool {
        self.i().same_channel(o.i())
    }
    pub fn downgrade(&self) -> WeakUnboundedSender<T> {
        WeakUnboundedSender(self.i().downgrade())
    }
    pub fn strong_count(&self) -> usize {
        self.i().strong_count()
    }
    pub fn weak_count(&self) -> usize {
        self.i().weak_count()
    }
}
impl<T> Clone for UnboundedSender<T> {
    fn clone(&self) -> Self {
        UnboundedSender(self.0.clone())
    }
}
impl<T> Drop for UnboundedSender<T> {
    fn drop(&mut self) {
        if let Some(s) = self.0.take() {
            point(P_MPSC);
            drop(s);
        }
    }
}
impl<T> Clone for WeakUnboundedSender<T> {
    fn clone(&self) -> Self {
        WeakUnboundedSender(self.0.clone())
    }
}
impl<T> WeakUnboundedSender<T> {
    pub fn upgrade(&self) -> Option<UnboundedSender<T>> {
        point(P_MPSC);
        self.0.upgrade().map(|s| UnboundedSender(Some(s)))
    }
}
#[allow(dead_code)]
fn assert_send<T: Send>() {
    fn ok<X: Send>() {}
    ok::<Sender<T>>();
    ok::<Receiver<T>>();
    ok::<UnboundedSender<T>>();
    let _ = std::mem::size_of::<Pin<Box<T>>>();
}
