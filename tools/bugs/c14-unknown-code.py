PROPERTY = "C14"
NEEDS = "a message with a control code this version does not know, for a call in flight"
BREAKS = "An unknown control code counts as no control code: the message starts another rpc (or is taken for a response) instead of cancelling."
F = "protosocket-rpc/src/message.rs"
EDITS = [(F, '''            _ => Self::Cancel,
''', '''            _ => Self::Normal,
''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::FutureExt;
use protosocket_rpc::server::RpcKind;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use tokio::io::AsyncWriteExt;
fn main() {
    one_thread(async {
        let (started, dropped) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
        let (s, d) = (started.clone(), dropped.clone());
        let a = rpc::serve(64, move |q| {
            s.fetch_add(1, Ordering::SeqCst);
            let flag = rpc::Flag(d.clone());
            RpcKind::Unary(async move { let _flag = flag; std::future::pending::<()>().await; q }.boxed())
        }).await;
        let mut s = tokio::net::TcpStream::connect(a).await.unwrap();
        s.write_all(&m(3, 4).wire()).await.unwrap();
        check(until(3, || rpc::count(&started) == 1).await, "not started");
        s.write_all(&M { ctl: 9, id: 3, body: vec![] }.wire()).await.unwrap();
        check(until(3, || rpc::count(&dropped) == 1).await && rpc::count(&started) == 1, "an unknown control code does not cancel");
    });
}
'''
