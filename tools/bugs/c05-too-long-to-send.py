PROPERTY = "C05"
NEEDS = "an application message too large to send, while other messages are queued"
BREAKS = "A message over the limit is dropped with a log line instead of ending the connection: it is silently lost."
F = "protosocket-connection/src/connection.rs"
EDITS = [(F, '''                return Poll::Ready(());
            }
            serialized += 1;
''', '''                buffer.clear();
            }
            serialized += 1;
''')]
DEMO = r'''
mod kit;
use kit::*;
fn main() {
    one_thread(async {
        let (a, b) = pair().await;
        let (tx, c) = connection(a, 1000, 16, Got::default());
        let got = Got::default();
        let (_tx2, d) = connection(b, 1 << 20, 16, got.clone());
        for i in 0..10 {
            tx.send(m(i, if i == 5 { 2000 } else { 10 })).await.unwrap();
        }
        tokio::spawn(c);
        tokio::spawn(d);
        check(until(2, || tx.is_closed()).await, "the connection lives on without the message");
    });
}
'''
