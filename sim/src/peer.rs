//! A scripted peer that speaks raw bytes over a simulated socket.

use std::sync::{Arc, Mutex};

use simcore::choice::S;
use simcore::{chance, choose, log_uniform, Join};
use tokio::net::TcpStream;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Gone {
    No,
    Eof,
    Error,
}
pub struct Heard {
    pub bytes: Vec<u8>,
    pub gone: Gone,
}
pub struct Peer {
    pub node: u32,
    pub stream: Arc<TcpStream>,
    pub heard: Arc<Mutex<Heard>>,
    pub reader: Option<Join<()>>,
    /// woken when bytes or the end arrive
    pub on_data: Option<Arc<Mutex<Option<std::task::Waker>>>>,
}

impl Peer {
    pub fn new(node: u32, stream: TcpStream) -> Self {
        let heard = Arc::new(Mutex::new(Heard { bytes: Vec::new(), gone: Gone::No }));
        Peer { node, stream: Arc::new(stream), heard, reader: None, on_data: None }
    }
    /// Read everything that comes, in pieces of any size; `slow`: pause between reads.
    pub fn start_reading(&mut self, slow: bool) {
        let (s, h) = (self.stream.clone(), self.heard.clone());
        self.reader = Some(simcore::spawn_on(Some(self.node), "raw reader", read_loop(s, h, slow, self.on_data.clone())));
    }
    pub fn stop_reading(&mut self) {
        if let Some(r) = self.reader.take() {
            r.abort();
        }
    }
    pub fn gone(&self) -> Gone {
        self.heard.lock().unwrap().gone
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.heard.lock().unwrap().bytes.clone()
    }
    /// Write all of it in pieces cut anywhere. False if the other side is gone.
    pub async fn write(&self, bytes: &[u8]) -> bool {
        write(&self.stream, bytes).await
    }
    pub fn half_close(&self) {
        let _ = simcore::net::shutdown_write(self.stream.sim_id());
    }
    /// Drop the socket (a task still reading it is stopped first).
    pub fn close(mut self) -> Vec<u8> {
        self.stop_reading();
        simcore::net::close(self.stream.sim_id());
        self.bytes()
    }
}

pub async fn write(s: &TcpStream, bytes: &[u8]) -> bool {
    let mut at = 0;
    // 0: all at once, 1: small pieces, 2: any pieces
    let style = if bytes.len() > 20_000 { choose(S::App, 2) * 2 } else { choose(S::App, 3) };
    while at < bytes.len() {
        let left = bytes.len() - at;
        let n = match style {
            0 => left,
            1 => (1 + choose(S::App, 6) as usize).min(left),
            _ => (log_uniform(S::App, left as u32) as usize).clamp(1, left),
        };
        if style != 0 && chance(S::App, 200) {
            crate::env::pause().await;
        }
        if s.writable().await.is_err() {
            return false;
        }
        match s.try_write(&bytes[at..at + n]) {
            Ok(n) => at += n,
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(_) => return false,
        }
    }
    true
}

type Wake = Option<Arc<Mutex<Option<std::task::Waker>>>>;
fn notify(w: &Wake) {
    if let Some(w) = w.as_ref().and_then(|w| w.lock().unwrap().take()) {
        w.wake();
    }
}
async fn read_loop(s: Arc<TcpStream>, h: Arc<Mutex<Heard>>, slow: bool, wake: Wake) {
    let mut buf = vec![0u8; 65536];
    loop {
        let n = if slow { (log_uniform(S::App, 4000) as usize).max(1) } else { buf.len() };
        if s.readable().await.is_err() {
            h.lock().unwrap().gone = Gone::Error;
            notify(&wake);
            return;
        }
        match s.try_read(&mut buf[..n]) {
            Ok(0) => {
                h.lock().unwrap().gone = Gone::Eof;
                notify(&wake);
                return;
            }
            Ok(n) => {
                h.lock().unwrap().bytes.extend_from_slice(&buf[..n]);
                notify(&wake);
            }
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(_) => {
                h.lock().unwrap().gone = Gone::Error;
                notify(&wake);
                return;
            }
        }
        if slow && chance(S::App, 300) {
            crate::env::pause().await;
        }
    }
}
