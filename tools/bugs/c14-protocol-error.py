PROPERTY = "C14"
NEEDS = "a response that crosses with the cancellation of its call"
BREAKS = "A response to a call that is not in flight counts as a protocol error and ends the connection."
F = "protosocket-rpc/src/client/reactor/completion_reactor.rs"
EDITS = [(F, '''                        .on_message(message_from_the_network, &mut self.rpc_registry);
''', '''                        .on_message(message_from_the_network, &mut self.rpc_registry);
                    strays += 1;
                    if 8 < strays {
                        log::warn!("the server does not know what it is talking about");
                        return ReactorStatus::Disconnect;
                    }
'''), (F, '''        self.rpc_registry.take_new_rpc_lifecycle_actions();

        for message''', '''        self.rpc_registry.take_new_rpc_lifecycle_actions();

        let mut strays = 0;
        for message''')]
DEMO = r'''
mod kit;
use kit::*;
use tokio::io::AsyncWriteExt;
fn main() {
    one_thread(async {
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        let c = rpc::client(l.local_addr().unwrap(), 16).await;
        let (mut s, _) = l.accept().await.unwrap();
        let call = c.send_unary(m(1, 2)).await.unwrap();
        let mut bytes = Vec::new();
        for i in 100..120 {
            bytes.extend(m(i, 3).wire());
        }
        bytes.extend(m(1, 5).wire());
        s.write_all(&bytes).await.unwrap();
        let r = tokio::time::timeout(std::time::Duration::from_secs(2), call).await;
        check(matches!(r, Ok(Ok(_))), "late responses to others end the connection");
    });
}
'''
