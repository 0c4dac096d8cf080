PROPERTY = "C08"
NEEDS = "a call polled once, then awaited elsewhere (in another task, or inside a select), before the response comes"
BREAKS = "The response future leaves its waker behind only the first time it is polled: a call that moved to another task is never woken."
F = "protosocket-rpc/src/client/reactor/completion_unary.rs"
EDITS = [(F, """    completion_guard: CompletionGuard<Response, Request>,
}

impl""", """    completion_guard: CompletionGuard<Response, Request>,
    /// already registered for the response
    waiting: bool,
}

impl"""), (F, """            completion_guard,
        }
""", """            completion_guard,
            waiting: false,
        }
"""), (F, """        match pin!(&mut self.completion).poll(context) {
""", """        let received = if self.waiting {
            // the receiver is registered: only look
            match self.completion.try_recv() {
                Err(oneshot::error::TryRecvError::Empty) => Poll::Pending,
                Err(oneshot::error::TryRecvError::Closed) => Poll::Ready(None),
                Ok(done) => Poll::Ready(Some(done)),
            }
        } else {
            pin!(&mut self.completion).poll(context).map(Result::ok)
        };
        self.waiting = true;
        match received {
"""), (F, """                    Ok(done) => Poll::Ready(done),
                    Err(_cancelled) => Poll""", """                    Some(done) => Poll::Ready(done),
                    None => Poll""")]
DEMO = r"""
mod kit;
use kit::*;
use futures::FutureExt;
use protosocket_rpc::server::RpcKind;
use std::time::Duration;
fn main() {
    one_thread(async {
        let a = rpc::serve(64, |q| RpcKind::Unary(async move { tokio::time::sleep(Duration::from_millis(200)).await; q }.boxed())).await;
        let c = rpc::client(a, 64).await;
        let mut call = Box::pin(c.send_unary(m(5, 1)).await.unwrap());
        check(futures::poll!(call.as_mut()).is_pending(), "too early");
        let r = tokio::time::timeout(Duration::from_secs(3), tokio::spawn(call)).await;
        check(matches!(r, Ok(Ok(Ok(_)))), "the response never arrives at the task that waits for it");
    });
}
"""
