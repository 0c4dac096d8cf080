PROPERTY = "C10"
NEEDS = "a cancellation that is handled while the cancelled rpc's future is ready, or becomes ready in that very poll"
BREAKS = "A cancelled rpc is given one more poll, and if that completes it the response is sent after all."
F = "protosocket-rpc/src/server/abortable.rs"
EDITS = [(F, '''        let state = self.aborted.load(Ordering::Relaxed);
        if 1 == state {
''', '''        // a result that is there anyway need not be thrown away
        if let Poll::Ready(output) = pin!(&mut self.f).poll(context) {
            return Poll::Ready((self.id, AbortableState::Ready(Ok(output))));
        }
        let state = self.aborted.load(Ordering::Relaxed);
        if 1 == state {
'''), (F, '''        self.waker.register(context.waker());
        pin!(&mut self.f)
            .poll(context)
            .map(|output| (self.id, AbortableState::Ready(Ok(output))))
''', '''        self.waker.register(context.waker());
        Poll::Pending
''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::FutureExt;
use protosocket_rpc::server::RpcKind;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
fn main() {
    one_thread(async {
        let a = rpc::serve(64, move |m| RpcKind::Unary(async move { m }.boxed())).await;
        let mut s = tokio::net::TcpStream::connect(a).await.unwrap();
        let mut bytes = m(1, 4).wire();
        bytes.extend(cancel(1).wire());
        bytes.extend(m(2, 4).wire());
        s.write_all(&bytes).await.unwrap();
        // the answer to 2, and none to the cancelled 1, which came in the same batch with its cancellation
        let mut b = vec![0; 1000];
        tokio::time::sleep(std::time::Duration::from_millis(300)).await;
        let n = s.read(&mut b).await.unwrap();
        check(b[..n] == m(2, 4).wire()[..], "a response to a cancelled call");
    });
}
'''
