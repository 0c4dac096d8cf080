PROPERTY = "C09"
NEEDS = "a streaming call whose consumer is more than 256 items behind"
BREAKS = "Items for a consumer that is too far behind are dropped, and the stream still reports a normal end."
B = "protosocket-rpc/src/client/"
EDITS = [(B + "rpc_client.rs", '''        let (sender, completion) = mpsc::unbounded_channel();
        let completion_guard = self
            .send_message(Completion::RemoteStreaming''', '''        let (sender, completion) = mpsc::channel(STREAM_BACKLOG);
        let completion_guard = self
            .send_message(Completion::RemoteStreaming'''),
 (B + "rpc_client.rs", '''impl<Request, Response> RpcClient<Request, Response>
''', '''/// How far a consumer of a streaming rpc may be behind
const STREAM_BACKLOG: usize = 256;

impl<Request, Response> RpcClient<Request, Response>
'''),
 (B + "reactor/completion_registry.rs", "RemoteStreaming(mpsc::UnboundedSender<crate::Result<Inbound>>)", "RemoteStreaming(mpsc::Sender<crate::Result<Inbound>>)"),
 (B + "reactor/completion_streaming.rs", '''    completion: mpsc::UnboundedReceiver<crate::Result<Response>>,
    completion_guard: CompletionGuard<Response, Request>,
    closed: bool,''', '''    completion: mpsc::Receiver<crate::Result<Response>>,
    completion_guard: CompletionGuard<Response, Request>,
    closed: bool,'''),
 (B + "reactor/completion_streaming.rs", '''        completion: mpsc::UnboundedReceiver<crate::Result<Response>>,
        completion_guard''', '''        completion: mpsc::Receiver<crate::Result<Response>>,
        completion_guard'''),
 (B + "reactor/completion_reactor.rs", '''                        let _ = stream.send(Err(crate::Error::Finished));''', '''                        tokio::spawn(async move {
                            let _ = stream.send(Err(crate::Error::Finished)).await;
                        });'''),
 (B + "reactor/completion_reactor.rs", '''                        if let Err(e) = stream.send(Ok(message_from_the_network)) {
                            log::debug!("{message_id_from_the_network} completion channel closed - did the client lose interest in this request? {e:?}");
                            registered_rpc.remove();
                        }''', '''                        if let Err(e) = stream.try_send(Ok(message_from_the_network)) {
                            log::debug!("{message_id_from_the_network} completion channel closed - did the client lose interest in this request? {e:?}");
                            if stream.is_closed() {
                                registered_rpc.remove();
                            }
                        }'''),
]
DEMO = r'''
mod kit;
use kit::*;
use futures::StreamExt;
use protosocket_rpc::server::RpcKind;
fn main() {
    threads(4, async {
        let a = rpc::serve(64, |q| RpcKind::Streaming(futures::stream::iter((0..2000).map(move |i| m(q.id, i))).boxed())).await;
        let c = rpc::client(a, 64).await;
        let mut s = c.send_streaming(m(5, 0)).await.unwrap();
        tokio::time::sleep(std::time::Duration::from_millis(700)).await;
        let mut n = 0;
        while let Some(Ok(item)) = s.next().await {
            check(item.body.len() == n, &format!("item {} where {n} is due", item.body.len()));
            n += 1;
        }
        check(n == 2000, &format!("{n} of 2000 items"));
    });
}
'''
