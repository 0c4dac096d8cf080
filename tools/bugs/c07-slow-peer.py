PROPERTY = "C07"
NEEDS = "a peer that does not read for more than six seconds, with the send buffers full, and then something that polls the connection"
BREAKS = "A connection that could not write for six seconds ends itself, although its peer is only slow and nothing ended the connection."
F = "protosocket-connection/src/connection.rs"
EDITS = [(F, '''    reactor: Bindings::Reactor,
}
''', '''    reactor: Bindings::Reactor,
    blocked_since: Option<std::time::Instant>,
}
'''), (F, '''            reactor,
        }
    }
''', '''            reactor,
            blocked_since: None,
        }
    }
'''), (F, '''                log::trace!("would block - no longer writable");
''', '''                log::trace!("would block - no longer writable");
                drop(buffers);
                self.blocked_since.get_or_insert_with(std::time::Instant::now);
'''), (F, '''            Ok(written) => {
                self.rotate_send_buffers(written);
''', '''            Ok(written) => {
                self.blocked_since = None;
                self.rotate_send_buffers(written);
'''), (F, '''            log::debug!("send is full: {self}");
''', '''            log::debug!("send is full: {self}");
            if self
                .blocked_since
                .is_some_and(|since| std::time::Duration::from_secs(6) < since.elapsed())
            {
                log::warn!("the peer is gone: {self}");
                return Poll::Ready(());
            }
''')]
DEMO = r'''
mod kit;
use kit::*;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
fn main() {
    one_thread(async {
        let (mut a, b) = pair().await;
        let (tx, c) = connection(b, 1 << 20, 4, Got::default());
        let t = tokio::spawn(c);
        let sender = tokio::spawn(async move {
            for i in 0..200 {
                if tx.send(m(i, 200_000)).await.is_err() {
                    return None;
                }
            }
            Some(tx)
        });
        tokio::time::sleep(Duration::from_secs(8)).await;
        a.write_all(&m(1, 3).wire()).await.unwrap();
        tokio::time::sleep(Duration::from_secs(1)).await;
        check(!t.is_finished(), "the connection ended although its peer is only slow");
        let mut all = 200 * m(0, 200_000).wire().len();
        let mut buf = vec![0; 1 << 20];
        while all > 0 {
            let n = a.read(&mut buf).await.unwrap_or(0);
            check(n > 0, "the connection ended");
            all -= n;
        }
        check(sender.await.unwrap().is_some(), "a message was not accepted");
    });
}
'''
