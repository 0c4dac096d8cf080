PROPERTY = "C09"
NEEDS = "a stream of more than 65 535 responses"
BREAKS = "The client counts a stream's responses in 16 bits and takes an overflow for a runaway stream: the 65 536th response is replaced by a cancellation."
F = "protosocket-rpc/src/client/reactor/completion_streaming.rs"
EDITS = [(F, '''    nexts: Vec<crate::Result<Response>>,
}

/// SAFETY''', '''    nexts: Vec<crate::Result<Response>>,
    /// responses so far
    count: u16,
}

/// SAFETY'''), (F, '''            nexts: Vec::with_capacity(LIMIT),
''', '''            nexts: Vec::with_capacity(LIMIT),
            count: 0,
'''), (F, '''                Poll::Ready(Some(next))
''', '''                else if let Some(count) = self.count.checked_add(1) {
                    self.count = count;
                } else {
                    self.closed = true;
                    return Poll::Ready(Some(Err(crate::Error::CancelledRemotely)));
                }
                Poll::Ready(Some(next))
''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::StreamExt;
use protosocket_rpc::server::RpcKind;
use std::time::Duration;
fn main() {
    one_thread(async {
        let a = rpc::serve(64, |q| RpcKind::Streaming(futures::stream::iter((0..70_000u64).map(move |i| m(q.id, (i % 8) as usize))).boxed())).await;
        let c = rpc::client(a, 64).await;
        let s = c.send_streaming(m(5, 1)).await.unwrap();
        let n = tokio::time::timeout(Duration::from_secs(60), s.filter(|r| futures::future::ready(r.is_ok())).count()).await;
        check(matches!(n, Ok(70_000)), &format!("{n:?} of 70000 responses"));
    });
}
'''
