PROPERTY = "C14"
NEEDS = "a cancellation for an id that is not in flight, and later a call with that id"
BREAKS = "A cancellation that finds no rpc is remembered, and the next request with that id is thrown away."
F = "protosocket-rpc/src/server/connection_server.rs"
EDITS = [(F, '''    aborts: HashMap<u64, IdentifiableAbortHandle>,
}''', '''    aborts: HashMap<u64, IdentifiableAbortHandle>,
    early_cancellations: std::collections::HashSet<u64>,
}'''),
 (F, '''            aborts: Default::default(),
''', '''            aborts: Default::default(),
            early_cancellations: Default::default(),
'''),
 (F, '''                ProtosocketControlCode::Normal => {
                    match self''', '''                ProtosocketControlCode::Normal => {
                    if self.early_cancellations.remove(&message_id) {
                        log::debug!("message {message_id} is cancelled already");
                        continue;
                    }
                    match self'''),
 (F, '''                        log::debug!("received cancellation for untracked message {message_id}");''', '''                        log::debug!("received cancellation for untracked message {message_id}");
                        self.early_cancellations.insert(message_id);''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::FutureExt;
use protosocket_rpc::server::RpcKind;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
fn main() {
    one_thread(async {
        let a = rpc::serve(64, |q| RpcKind::Unary(async move { q }.boxed())).await;
        let mut s = tokio::net::TcpStream::connect(a).await.unwrap();
        s.write_all(&cancel(3).wire()).await.unwrap();
        s.write_all(&m(3, 4).wire()).await.unwrap();
        let mut b = vec![0; m(3, 4).wire().len()];
        let r = tokio::time::timeout(std::time::Duration::from_secs(3), s.read_exact(&mut b)).await;
        check(matches!(r, Ok(Ok(_))) && b == m(3, 4).wire(), "a call is not answered after a stray cancellation");
    });
}
'''
