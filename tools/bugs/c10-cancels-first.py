PROPERTY = "C10"
NEEDS = "a request and its cancellation that reach the server's rpc task in one batch"
BREAKS = "Cancellations in a batch are handled before the requests in it, so the cancellation of a request in the same batch finds nothing to cancel and the rpc runs on."
F = "protosocket-rpc/src/server/connection_server.rs"
EDITS = [(F, '''    fn handle_message_buffer(mut self: Pin<&mut Self>) {
''', '''    fn handle_message_buffer(mut self: Pin<&mut Self>) {
        // cancelled work should stop before new work is started
        self.next_messages_buffer
            .sort_by_key(|m| matches!(m.control_code(), ProtosocketControlCode::Cancel));
''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::FutureExt;
use protosocket_rpc::server::RpcKind;
use std::sync::Arc;
use tokio::io::AsyncWriteExt;
fn main() {
    one_thread(async {
        let started = Arc::new(std::sync::atomic::AtomicUsize::new(0));
        let dropped = started.clone();
        let dropped2 = Arc::new(std::sync::atomic::AtomicUsize::new(0));
        let d = dropped2.clone();
        let a = rpc::serve(64, move |_| {
            dropped.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            let f = rpc::Flag(d.clone());
            RpcKind::Unary(async move { let _f = f; std::future::pending().await }.boxed())
        }).await;
        let mut s = tokio::net::TcpStream::connect(a).await.unwrap();
        let mut bytes = m(1, 4).wire();
        bytes.extend(cancel(1).wire());
        s.write_all(&bytes).await.unwrap();
        until(1, || rpc::count(&dropped2) > 0).await;
        check(rpc::count(&started) == rpc::count(&dropped2), "a cancelled rpc is still running");
    });
}
'''
