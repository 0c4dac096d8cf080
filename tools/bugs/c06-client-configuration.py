PROPERTY = "C06"
NEEDS = "a client configured with a small outbound queue, and a server that does not read"
BREAKS = "The configured queue limit of an rpc client is only used as a lower bound for its channel: the client accepts far more requests than its limit."
F = "protosocket-rpc/src/client/configuration.rs"
EDITS = [(F, '''    let (outbound, outbound_messages) = mpsc::channel(configuration.max_queued_outbound_messages);
''', '''    // leave some slack so that short bursts don't have to wait
    let (outbound, outbound_messages) =
        mpsc::channel(configuration.max_queued_outbound_messages.max(256));
''')]
DEMO = r'''
mod kit;
use kit::*;
use protosocket_rpc::client::Configuration;
fn main() {
    one_thread(async {
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        let mut c = Configuration::default();
        c.max_queued_outbound_messages(4);
        c.max_buffer_length(1 << 24);
        let (client, connection) = protosocket_rpc::client::connect::<Ser, De>(l.local_addr().unwrap(), &c).await.unwrap();
        tokio::spawn(connection);
        let mut calls = vec![client.send_unary(m(0, 15_000_000)).await.unwrap()];
        while let Ok(Ok(c)) = tokio::time::timeout(std::time::Duration::from_millis(500), client.send_unary(m(calls.len() as u64, 10))).await {
            calls.push(c);
            check(calls.len() < 100, "a client with a queue of 4 takes 100 requests the server does not read");
        }
    });
}
'''
