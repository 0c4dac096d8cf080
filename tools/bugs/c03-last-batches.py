PROPERTY = "C03"
NEEDS = "a peer that closes its sending side with more complete messages received than one inbound batch"
BREAKS = "A full batch reports that it waits for more input, which is enough while the connection is open (it wakes itself), but ends the delivery of what is left when the peer has closed: messages received before the close are lost."
F = "protosocket-connection/src/connection.rs"
EDITS = [(F, '''                log::debug!("full batch of messages read from the socket");
                break ReadBufferState::PartiallyConsumed;''', '''                // the task is woken when there are new messages, and comes back here after they are handled
                log::debug!("full batch of messages read from the socket");
                break ReadBufferState::WaitingForMore;''')]
DEMO = r'''
mod kit;
use kit::*;
use tokio::io::AsyncWriteExt;
fn main() {
    one_thread(async {
        let (mut a, b) = pair().await;
        let g = Got::default();
        let (_tx, c) = connection(b, 1 << 20, 4, g.clone());
        let mut bytes = Vec::new();
        for i in 0..30 {
            bytes.extend(m(i, 10).wire());
        }
        a.write_all(&bytes).await.unwrap();
        a.shutdown().await.unwrap();
        tokio::time::sleep(std::time::Duration::from_millis(50)).await;
        tokio::spawn(c).await.unwrap();
        check(g.len() == 30, &format!("{} of 30 messages sent before the close were delivered", g.len()));
    });
}
'''
