//! TCP over the simulated network.
use std::io::{self, IoSlice, IoSliceMut};
use std::net::{SocketAddr, ToSocketAddrs as StdToSocketAddrs};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;

use real_tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use simcore::net as sim;

use crate::io::{Interest, Ready};

pub trait ToSocketAddrs: StdToSocketAddrs {}
impl<T: StdToSocketAddrs> ToSocketAddrs for T {}

fn resolve<A: ToSocketAddrs>(a: A) -> io::Result<SocketAddr> {
    a.to_socket_addrs()?
        .next()
        .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "no address"))
}

pub struct TcpStream {
    id: sim::SockId,
}
impl std::fmt::Debug for TcpStream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "TcpStream({})", self.id)
    }
}
impl Drop for TcpStream {
    fn drop(&mut self) {
        sim::close(self.id)
    }
}
impl TcpStream {
    /// wrap a socket of the simulated network
    pub fn from_sim(id: sim::SockId) -> Self {
        TcpStream { id }
    }
    pub fn sim_id(&self) -> sim::SockId {
        self.id
    }
    pub async fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<TcpStream> {
        let addr = resolve(addr)?;
        Ok(TcpStream { id: sim::connect(addr).await? })
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        sim::local_addr(self.id)
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        sim::peer_addr(self.id)
    }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(None)
    }
    pub fn poll_peek(&self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<usize>> {
        loop {
            match sim::poll_read_ready(self.id, cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Ready(Ok(())) => match sim::try_peek(self.id, buf.initialize_unfilled()) {
                    Ok(n) => {
                        buf.advance(n);
                        return Poll::Ready(Ok(n));
                    }
                    Err(e) if e.kind() == io::ErrorKind::WouldBlock => continue,
                    Err(e) => return Poll::Ready(Err(e)),
                },
            }
        }
    }
    pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
        loop {
            self.readable().await?;
            match sim::try_peek(self.id, buf) {
                Err(e) if e.kind() == io::ErrorKind::WouldBlock => continue,
                r => return r,
            }
        }
    }
    pub async fn ready(&self, i: Interest) -> io::Result<Ready> {
        let (r, w) =
            std::future::poll_fn(|cx| sim::poll_ready_many(self.id, i.is_readable(), i.is_writable(), cx)).await;
        Ok(Ready(r as u8 | (w as u8) << 1))
    }
    pub async fn readable(&self) -> io::Result<()> {
        self.ready(Interest::READABLE).await.map(|_| ())
    }
    pub async fn writable(&self) -> io::Result<()> {
        self.ready(Interest::WRITABLE).await.map(|_| ())
    }
    pub fn poll_read_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        sim::poll_read_ready(self.id, cx)
    }
    pub fn poll_write_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        sim::poll_write_ready(self.id, cx)
    }
    pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
        sim::try_read(self.id, buf)
    }
    pub fn try_read_vectored(&self, bufs: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
        let mut total = 0;
        for b in bufs.iter_mut().filter(|b| !b.is_empty()) {
            match sim::try_read(self.id, b) {
                Ok(n) => {
                    total += n;
                    if n < b.len() {
                        return Ok(total);
                    }
                }
                Err(e) if total == 0 => return Err(e),
                Err(_) => return Ok(total),
            }
        }
        Ok(total)
    }
    pub fn try_read_buf<B: bytes::BufMut>(&self, buf: &mut B) -> io::Result<usize> {
        let want = buf.remaining_mut().min(64 * 1024).max(1).min(buf.chunk_mut().len().max(1));
        let mut tmp = vec![0; want];
        let n = sim::try_read(self.id, &mut tmp)?;
        buf.put_slice(&tmp[..n]);
        Ok(n)
    }
    pub fn try_write(&self, buf: &[u8]) -> io::Result<usize> {
        sim::try_write(self.id, &[buf])
    }
    pub fn try_write_vectored(&self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
        let v: Vec<&[u8]> = bufs.iter().map(|b| &**b).collect();
        sim::try_write(self.id, &v)
    }
    pub fn try_io<R>(&self, i: Interest, f: impl FnOnce() -> io::Result<R>) -> io::Result<R> {
        let r = f();
        if matches!(&r, Err(e) if e.kind() == io::ErrorKind::WouldBlock) {
            if i.is_readable() {
                sim::clear_read_ready(self.id);
            }
            if i.is_writable() {
                sim::clear_write_ready(self.id);
            }
        }
        r
    }
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(sim::nodelay(self.id))
    }
    pub fn set_nodelay(&self, on: bool) -> io::Result<()> {
        sim::set_nodelay(self.id, on)
    }
    pub fn linger(&self) -> io::Result<Option<Duration>> {
        Ok(sim::abortive(self.id).then_some(Duration::ZERO))
    }
    pub fn set_linger(&self, d: Option<Duration>) -> io::Result<()> {
        sim::set_abortive(self.id, d == Some(Duration::ZERO));
        Ok(())
    }
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(64)
    }
    pub fn set_ttl(&self, _t: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
        let s = Arc::new(self);
        (tcp::OwnedReadHalf(s.clone()), tcp::OwnedWriteHalf(s))
    }
    pub fn split(&mut self) -> (tcp::ReadHalf<'_>, tcp::WriteHalf<'_>) {
        (tcp::ReadHalf(self), tcp::WriteHalf(self))
    }
    fn do_poll_read(&self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        loop {
            match sim::poll_read_ready(self.id, cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Ready(Ok(())) => match sim::try_read(self.id, buf.initialize_unfilled()) {
                    Ok(n) => {
                        buf.advance(n);
                        return Poll::Ready(Ok(()));
                    }
                    Err(e) if e.kind() == io::ErrorKind::WouldBlock => continue,
                    Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
                    Err(e) => return Poll::Ready(Err(e)),
                },
            }
        }
    }
    fn do_poll_write(&self, cx: &mut Context<'_>, bufs: &[&[u8]]) -> Poll<io::Result<usize>> {
        loop {
            match sim::poll_write_ready(self.id, cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Ready(Ok(())) => match sim::try_write(self.id, bufs) {
                    Err(e) if e.kind() == io::ErrorKind::WouldBlock => continue,
                    Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
                    r => return Poll::Ready(r),
                },
            }
        }
    }
}

macro_rules! read_impl {
    ($t:ty, $s:ident => $e:expr) => {
        impl AsyncRead for $t {
            fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
                let $s = &*self;
                $e.do_poll_read(cx, buf)
            }
        }
    };
}
macro_rules! write_impl {
    ($t:ty, $s:ident => $e:expr) => {
        impl AsyncWrite for $t {
            fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
                let $s = &*self;
                $e.do_poll_write(cx, &[b])
            }
            fn poll_write_vectored(
                self: Pin<&mut Self>,
                cx: &mut Context<'_>,
                bufs: &[IoSlice<'_>],
            ) -> Poll<io::Result<usize>> {
                let $s = &*self;
                let v: Vec<&[u8]> = bufs.iter().map(|b| &**b).collect();
                $e.do_poll_write(cx, &v)
            }
            fn is_write_vectored(&self) -> bool {
                true
            }
            fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                Poll::Ready(Ok(()))
            }
            fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                let $s = &*self;
                Poll::Ready(sim::shutdown_write($e.id))
            }
        }
    };
}
read_impl!(TcpStream, s => s);
write_impl!(TcpStream, s => s);

pub mod tcp {
    use super::*;
    #[derive(Debug)]
    pub struct OwnedReadHalf(pub(crate) Arc<TcpStream>);
    #[derive(Debug)]
    pub struct OwnedWriteHalf(pub(crate) Arc<TcpStream>);
    #[derive(Debug)]
    pub struct ReadHalf<'a>(pub(crate) &'a TcpStream);
    #[derive(Debug)]
    pub struct WriteHalf<'a>(pub(crate) &'a TcpStream);
    impl Drop for OwnedWriteHalf {
        fn drop(&mut self) {
            let _ = sim::shutdown_write(self.0.id);
        }
    }
    macro_rules! rd {
        ($t:ty) => {
            impl $t {
                pub fn local_addr(&self) -> io::Result<SocketAddr> {
                    self.0.local_addr()
                }
                pub fn peer_addr(&self) -> io::Result<SocketAddr> {
                    self.0.peer_addr()
                }
                pub async fn ready(&self, i: Interest) -> io::Result<Ready> {
                    self.0.ready(i).await
                }
                pub fn try_read_vectored(&self, bufs: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
                    self.0.try_read_vectored(bufs)
                }
                pub fn try_read_buf<B: bytes::BufMut>(&self, buf: &mut B) -> io::Result<usize> {
                    self.0.try_read_buf(buf)
                }
                pub async fn peek(&mut self, buf: &mut [u8]) -> io::Result<usize> {
                    self.0.peek(buf).await
                }
                pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
                    self.0.try_read(buf)
                }
                pub async fn readable(&self) -> io::Result<()> {
                    self.0.readable().await
                }
                pub fn as_ref(&self) -> &TcpStream {
                    &self.0
                }
            }
        };
    }
    macro_rules! wr {
        ($t:ty) => {
            impl $t {
                pub fn local_addr(&self) -> io::Result<SocketAddr> {
                    self.0.local_addr()
                }
                pub fn peer_addr(&self) -> io::Result<SocketAddr> {
                    self.0.peer_addr()
                }
                pub async fn ready(&self, i: Interest) -> io::Result<Ready> {
                    self.0.ready(i).await
                }
                pub fn try_write(&self, buf: &[u8]) -> io::Result<usize> {
                    self.0.try_write(buf)
                }
                pub fn try_write_vectored(&self, b: &[IoSlice<'_>]) -> io::Result<usize> {
                    self.0.try_write_vectored(b)
                }
                pub async fn writable(&self) -> io::Result<()> {
                    self.0.writable().await
                }
                pub fn as_ref(&self) -> &TcpStream {
                    &self.0
                }
            }
        };
    }
    rd!(OwnedReadHalf);
    rd!(ReadHalf<'_>);
    wr!(OwnedWriteHalf);
    wr!(WriteHalf<'_>);
    read_impl!(OwnedReadHalf, s => s.0);
    read_impl!(ReadHalf<'_>, s => s.0);
    write_impl!(OwnedWriteHalf, s => s.0);
    write_impl!(WriteHalf<'_>, s => s.0);
}

pub struct TcpListener {
    id: u64,
    addr: SocketAddr,
}
impl std::fmt::Debug for TcpListener {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "TcpListener({})", self.addr)
    }
}
impl TcpListener {
    pub async fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<TcpListener> {
        let (id, addr) = sim::bind(resolve(addr)?)?;
        Ok(TcpListener { id, addr })
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.addr)
    }
    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        sim::poll_accept(self.id, self.addr, false, cx).map_ok(|(id, a)| (TcpStream { id }, a))
    }
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        std::future::poll_fn(|cx| sim::poll_accept(self.id, self.addr, true, cx))
            .await
            .map(|(id, a)| (TcpStream { id }, a))
    }
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(64)
    }
    pub fn set_ttl(&self, _t: u32) -> io::Result<()> {
        Ok(())
    }
}
impl Drop for TcpListener {
    fn drop(&mut self) {
        sim::unbind(self.id, self.addr)
    }
}

/// A socket that is not yet connected or listening.
#[derive(Debug)]
pub struct TcpSocket {
    addr: std::sync::OnceLock<SocketAddr>,
    abortive: std::sync::atomic::AtomicBool,
}
impl TcpSocket {
    pub fn new_v4() -> io::Result<TcpSocket> {
        Ok(TcpSocket { addr: Default::default(), abortive: Default::default() })
    }
    pub fn new_v6() -> io::Result<TcpSocket> {
        Self::new_v4()
    }
    pub fn set_reuseaddr(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_reuseport(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_keepalive(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_send_buffer_size(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn set_recv_buffer_size(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_linger(&self, d: Option<Duration>) -> io::Result<()> {
        self.abortive.store(d == Some(Duration::ZERO), std::sync::atomic::Ordering::Relaxed);
        Ok(())
    }
    pub fn bind(&self, addr: SocketAddr) -> io::Result<()> {
        self.addr.set(addr).map_err(|_| io::Error::from(io::ErrorKind::InvalidInput))
    }
    pub async fn connect(self, addr: SocketAddr) -> io::Result<TcpStream> {
        let s = TcpStream::connect(addr).await?;
        sim::set_abortive(s.id, self.abortive.into_inner());
        Ok(s)
    }
    pub fn listen(self, _backlog: u32) -> io::Result<TcpListener> {
        let (id, addr) = sim::bind(self.addr.get().copied().ok_or_else(|| io::Error::from(io::ErrorKind::InvalidInput))?)?;
        Ok(TcpListener { id, addr })
    }
}

pub async fn lookup_host<T: ToSocketAddrs>(host: T) -> io::Result<impl Iterator<Item = SocketAddr>> {
    Ok(host.to_socket_addrs()?.collect::<Vec<_>>().into_iter())
}
