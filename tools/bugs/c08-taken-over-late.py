PROPERTY = "C08"
NEEDS = "a response that is read in the same poll in which the reactor would first see its call"
BREAKS = "New calls are taken over after the inbound messages are handled, so a response that arrives before the reactor ran once since the call was made finds no call."
F = "protosocket-rpc/src/client/reactor/completion_reactor.rs"
EDITS = [(F, '''        self.rpc_registry.take_new_rpc_lifecycle_actions();

        for message''', '''        for message'''), (F, '''            }
        }
        ReactorStatus::Continue
''', '''            }
        }
        // one lock per batch
        self.rpc_registry.take_new_rpc_lifecycle_actions();
        ReactorStatus::Continue
''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::future::Future;
use std::task::Poll;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
fn main() {
    one_thread(async {
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        let (client, connection) = protosocket_rpc::client::connect::<Ser, De>(l.local_addr().unwrap(), &Default::default()).await.unwrap();
        let mut connection = Box::pin(connection);
        let (mut s, _) = l.accept().await.unwrap();
        let call = client.send_unary(m(5, 3)).await.unwrap();
        // the server may answer as early as it likes: here its response is there when the request is written
        s.write_all(&m(5, 9).wire()).await.unwrap();
        tokio::time::sleep(std::time::Duration::from_millis(50)).await;
        tokio::spawn(std::future::poll_fn(move |cx| connection.as_mut().poll(cx)));
        let mut b = [0; 64];
        let _ = s.read(&mut b).await.unwrap();
        let r = tokio::time::timeout(std::time::Duration::from_secs(2), call).await;
        check(matches!(r, Ok(Ok(_))), "no response");
        let _ = Poll::Ready(());
    });
}
'''
