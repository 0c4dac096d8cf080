//! A frame codec, rpc messages and small helpers.
#![allow(dead_code)]
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use protosocket::{Connection, ConnectionBindings, DeserializeError, Deserializer, MessageReactor, ReactorStatus, Serializer};
use protosocket_rpc::{Message, ProtosocketControlCode};
use tokio::net::{TcpListener, TcpStream};
use tokio::sync::mpsc;

#[derive(Debug, Clone, Default, PartialEq)]
pub struct M {
    pub ctl: u8,
    pub id: u64,
    pub body: Vec<u8>,
}
pub fn m(id: u64, len: usize) -> M {
    M { ctl: 0, id, body: (0..len).map(|i| (i as u64 * 7 + id) as u8).collect() }
}
pub fn cancel(id: u64) -> M {
    M { ctl: 1, id, body: vec![] }
}
impl M {
    pub fn wire(&self) -> Vec<u8> {
        let mut b = Vec::new();
        Ser.encode(self.clone(), &mut b);
        b
    }
}
impl Message for M {
    fn message_id(&self) -> u64 {
        self.id
    }
    fn control_code(&self) -> ProtosocketControlCode {
        ProtosocketControlCode::from_u8(self.ctl)
    }
    fn set_message_id(&mut self, id: u64) {
        self.id = id
    }
    fn cancelled(id: u64) -> Self {
        M { ctl: 1, id, body: vec![] }
    }
    fn ended(id: u64) -> Self {
        M { ctl: 2, id, body: vec![] }
    }
}
#[derive(Default, Debug)]
pub struct Ser;
impl Serializer for Ser {
    type Message = M;
    fn encode(&mut self, m: M, b: &mut Vec<u8>) {
        b.extend_from_slice(&(m.body.len() as u32 + 13).to_le_bytes());
        b.push(m.ctl);
        b.extend_from_slice(&m.id.to_le_bytes());
        b.extend_from_slice(&m.body);
    }
}
#[derive(Default, Debug)]
pub struct De;
impl Deserializer for De {
    type Message = M;
    fn decode(&mut self, mut b: impl bytes::Buf) -> Result<(usize, M), DeserializeError> {
        let have = b.remaining();
        if have < 13 {
            return Err(DeserializeError::IncompleteBuffer { next_message_size: 13 });
        }
        let n = b.get_u32_le() as usize;
        if n < 13 {
            return Err(DeserializeError::InvalidBuffer);
        }
        if have < n {
            return Err(DeserializeError::IncompleteBuffer { next_message_size: n });
        }
        let ctl = b.get_u8();
        let id = b.get_u64_le();
        let mut body = vec![0; n - 13];
        b.copy_to_slice(&mut body);
        Ok((n, M { ctl, id, body }))
    }
}

#[derive(Clone, Default)]
pub struct Got(pub Arc<Mutex<Vec<M>>>);
impl Got {
    pub fn len(&self) -> usize {
        self.0.lock().unwrap().len()
    }
    pub fn all(&self) -> Vec<M> {
        self.0.lock().unwrap().clone()
    }
}
impl MessageReactor for Got {
    type Inbound = M;
    fn on_inbound_messages(&mut self, ms: impl IntoIterator<Item = M>) -> ReactorStatus {
        self.0.lock().unwrap().extend(ms);
        ReactorStatus::Continue
    }
}
pub struct Bind<R>(std::marker::PhantomData<R>);
impl<R: MessageReactor<Inbound = M>> ConnectionBindings for Bind<R> {
    type Deserializer = De;
    type Serializer = Ser;
    type Reactor = R;
}
pub fn connection<R: MessageReactor<Inbound = M>>(s: TcpStream, limit: usize, q: usize, r: R) -> (mpsc::Sender<M>, Connection<Bind<R>>) {
    let (tx, rx) = mpsc::channel(q);
    let a = s.peer_addr().unwrap();
    (tx, Connection::new(s, a, De, Ser, limit, q, rx, r))
}
pub async fn pair() -> (TcpStream, TcpStream) {
    let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
    let a = l.local_addr().unwrap();
    let (x, y) = futures::join!(TcpStream::connect(a), l.accept());
    (x.unwrap(), y.unwrap().0)
}
/// a free port
pub fn address() -> std::net::SocketAddr {
    std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap()
}
/// wait until `f` or a while has passed
pub async fn until(seconds: u64, f: impl Fn() -> bool) -> bool {
    for _ in 0..seconds * 100 {
        if f() {
            return true;
        }
        tokio::time::sleep(Duration::from_millis(10)).await;
    }
    f()
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        eprintln!("BROKEN: {what}");
        std::process::exit(1);
    }
}
pub fn one_thread<F: Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f)
}
pub fn threads<F: Future>(n: usize, f: F) -> F::Output {
    tokio::runtime::Builder::new_multi_thread().worker_threads(n).enable_all().build().unwrap().block_on(f)
}

pub mod rpc {
    use super::*;
    use futures::future::BoxFuture;
    use futures::stream::BoxStream;
    use protosocket_rpc::client::{Configuration, RpcClient};
    use protosocket_rpc::server::{ConnectionService, RpcKind, SocketRpcServer, SocketService};

    pub type Kind = RpcKind<BoxFuture<'static, M>, BoxStream<'static, M>>;
    #[derive(Clone)]
    pub struct Service(pub Arc<dyn Fn(M) -> Kind + Send + Sync>);
    impl SocketService for Service {
        type RequestDeserializer = De;
        type ResponseSerializer = Ser;
        type ConnectionService = Service;
        fn deserializer(&self) -> De {
            De
        }
        fn serializer(&self) -> Ser {
            Ser
        }
        fn new_connection_service(&self, _: std::net::SocketAddr) -> Service {
            self.clone()
        }
    }
    impl ConnectionService for Service {
        type Request = M;
        type Response = M;
        type UnaryFutureType = BoxFuture<'static, M>;
        type StreamType = BoxStream<'static, M>;
        fn new_rpc(&mut self, m: M) -> Kind {
            (self.0)(m)
        }
    }
    pub async fn serve(q: usize, f: impl Fn(M) -> Kind + Send + Sync + 'static) -> std::net::SocketAddr {
        let a = address();
        let mut s = SocketRpcServer::new(a, Service(Arc::new(f))).await.unwrap();
        s.set_max_queued_outbound_messages(q);
        tokio::spawn(s);
        a
    }
    pub async fn client(a: std::net::SocketAddr, q: usize) -> RpcClient<M, M> {
        let mut c = Configuration::default();
        c.max_queued_outbound_messages(q);
        let (client, connection) = protosocket_rpc::client::connect::<Ser, De>(a, &c).await.unwrap();
        tokio::spawn(connection);
        client
    }
    /// says when it is dropped
    pub struct Flag(pub Arc<std::sync::atomic::AtomicUsize>);
    impl Drop for Flag {
        fn drop(&mut self) {
            self.0.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        }
    }
    pub fn count(f: &Arc<std::sync::atomic::AtomicUsize>) -> usize {
        f.load(std::sync::atomic::Ordering::SeqCst)
    }
}
