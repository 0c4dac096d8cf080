PROPERTY = "C12"
NEEDS = "many connections whose service panicked, over the life of one server"
BREAKS = "A server serves a limited number of connections at a time, and the place of a connection whose service panicked is never given back: after enough of them nobody is served."
F = "protosocket-rpc/src/server/socket_server.rs"
EDITS = [(F, '''    max_queued_outbound_messages: usize,
}
''', '''    max_queued_outbound_messages: usize,
    slots: std::sync::Arc<tokio::sync::Semaphore>,
}
'''),
(F, '''            max_queued_outbound_messages: 128,
''', '''            max_queued_outbound_messages: 128,
            slots: std::sync::Arc::new(tokio::sync::Semaphore::new(64)),
'''),
(F, '''                        tokio::spawn(connection);
                        tokio::spawn(connection_rpc_server);
''', '''                        let slots = self.slots.clone();
                        tokio::spawn(async move {
                            // do not let too many connections compete
                            let Ok(slot) = slots.acquire().await else {
                                return;
                            };
                            slot.forget();
                            tokio::spawn(connection);
                            let _ = connection_rpc_server.await;
                            slots.add_permits(1);
                        });
''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::FutureExt;
use protosocket_rpc::server::RpcKind;
use std::time::Duration;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    one_thread(async {
        let a = rpc::serve(64, |q| if q.body.is_empty() { panic!("no body") } else { RpcKind::Unary(async move { q }.boxed()) }).await;
        for i in 0..100 {
            let c = rpc::client(a, 4).await;
            let Ok(call) = c.send_unary(m(i, 0)).await else { continue };
            let _ = tokio::time::timeout(Duration::from_secs(1), call).await;
        }
        let c = rpc::client(a, 4).await;
        let r = tokio::time::timeout(Duration::from_secs(3), c.send_unary(m(1, 1)).await.unwrap()).await;
        check(matches!(r, Ok(Ok(_))), "the server does not serve any more");
    });
}
'''
