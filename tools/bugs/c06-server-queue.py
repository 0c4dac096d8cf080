PROPERTY = "C06"
NEEDS = "a server with a small outbound limit, and a client that does not read"
BREAKS = "The rpc server's response queue is never smaller than 1024, so it takes far more responses from the service than the configured limit while the client does not read."
F = "protosocket-rpc/src/server/socket_server.rs"
EDITS = [(F, '''                            mpsc::channel(self.max_queued_outbound_messages);
''', '''                            mpsc::channel(self.max_queued_outbound_messages.max(1024));
''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::StreamExt;
use protosocket_rpc::server::RpcKind;
use std::sync::{atomic::{AtomicUsize, Ordering}, Arc};
use std::time::Duration;
use tokio::io::AsyncWriteExt;
fn main() {
    one_thread(async {
        let produced = Arc::new(AtomicUsize::new(0));
        let p = produced.clone();
        let a = rpc::serve(8, move |q| {
            let p = p.clone();
            RpcKind::Streaming(futures::stream::iter((0..1_000_000u64).map(move |_| { p.fetch_add(1, Ordering::SeqCst); m(q.id, 1 << 20) })).boxed())
        }).await;
        let mut c = tokio::net::TcpStream::connect(a).await.unwrap();
        c.write_all(&m(1, 1).wire()).await.unwrap();
        tokio::time::sleep(Duration::from_secs(3)).await;
        let n = produced.load(Ordering::SeqCst);
        check(n < 100, &format!("{n} responses of 1 MiB are held for a client that does not read, with a limit of 8"));
    });
}
'''
