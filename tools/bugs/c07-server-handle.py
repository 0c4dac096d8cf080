PROPERTY = "C07"
NEEDS = "a server reactor that drops its outbound handle (or never kept it)"
BREAKS = "The server's task for a connection keeps an outbound handle of its own, so the connection outlives its last application handle."
F = "protosocket-server/src/connection_server.rs"
EDITS = [(F, '''                        self.runtime.spawn(connection);
''', '''                        self.runtime.spawn(async move {
                            connection.await;
                            log::debug!(
                                "connection with {address} ended, room for {} messages",
                                outbound_submission_queue.capacity()
                            );
                        });
''')]
DEMO = r'''
mod kit;
use kit::*;
use protosocket_server::{ProtosocketServer, ServerConnector};
use tokio::io::AsyncReadExt;
use tokio::sync::mpsc;
struct C;
impl ServerConnector for C {
    type Bindings = Bind<Got>;
    fn serializer(&self) -> Ser {
        Ser
    }
    fn deserializer(&self) -> De {
        De
    }
    fn new_reactor(&self, out: mpsc::Sender<M>) -> Got {
        out.try_send(m(7, 10)).unwrap();
        Got::default()
    }
}
fn main() {
    one_thread(async {
        let a = address();
        let s = ProtosocketServer::new(a, tokio::runtime::Handle::current(), C).await.unwrap();
        tokio::spawn(s);
        let mut c = tokio::net::TcpStream::connect(a).await.unwrap();
        let mut all = Vec::new();
        let r = tokio::time::timeout(std::time::Duration::from_secs(3), c.read_to_end(&mut all)).await;
        check(all == m(7, 10).wire(), "the message is not there");
        check(matches!(r, Ok(Ok(_))), "the connection stays open without an outbound handle");
    });
}
'''
