PROPERTY = "C11"
NEEDS = "a connection that ends while a streaming call is open"
BREAKS = "A stream holds a sender of its own channel, so it never notices that the connection is gone: its consumer waits for ever."
F = "protosocket-rpc/src/client/rpc_client.rs"
G = "protosocket-rpc/src/client/reactor/completion_streaming.rs"
EDITS = [(F, '''            .send_message(Completion::RemoteStreaming(sender), request)
            .await?;

        let completion = StreamingCompletion::new(completion, completion_guard);
''', '''            .send_message(Completion::RemoteStreaming(sender.clone()), request)
            .await?;

        let completion = StreamingCompletion::new(completion, sender, completion_guard);
'''), (G, '''    completion: mpsc::UnboundedReceiver<crate::Result<Response>>,
    completion_guard: CompletionGuard<Response, Request>,
    closed: bool,
''', '''    completion: mpsc::UnboundedReceiver<crate::Result<Response>>,
    _injector: mpsc::UnboundedSender<crate::Result<Response>>,
    completion_guard: CompletionGuard<Response, Request>,
    closed: bool,
'''), (G, '''        completion: mpsc::UnboundedReceiver<crate::Result<Response>>,
        completion_guard: CompletionGuard<Response, Request>,
    ) -> Self {
        Self {
            completion,
''', '''        completion: mpsc::UnboundedReceiver<crate::Result<Response>>,
        injector: mpsc::UnboundedSender<crate::Result<Response>>,
        completion_guard: CompletionGuard<Response, Request>,
    ) -> Self {
        Self {
            completion,
            _injector: injector,
''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::StreamExt;
fn main() {
    one_thread(async {
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        let c = rpc::client(l.local_addr().unwrap(), 16).await;
        let (s, _) = l.accept().await.unwrap();
        let mut call = c.send_streaming(m(1, 2)).await.unwrap();
        tokio::time::sleep(std::time::Duration::from_millis(100)).await;
        drop(s);
        let r = tokio::time::timeout(std::time::Duration::from_secs(2), call.next()).await;
        check(matches!(r, Ok(Some(Err(_)))), "the stream outlives its connection");
    });
}
'''
