PROPERTY = "C06"
NEEDS = "a client that keeps calling and does not read the responses"
BREAKS = "Rpcs are completed also when the outbound queue is full, and their responses wait in a list without a limit."
F = "protosocket-rpc/src/server/connection_server.rs"
EDITS = [(F, '''    aborts: HashMap<u64, IdentifiableAbortHandle>,
}''', '''    aborts: HashMap<u64, IdentifiableAbortHandle>,
    completed: std::collections::VecDeque<<TConnectionServer as ConnectionService>::Response>,
}'''),
(F, '''            aborts: Default::default(),
''', '''            aborts: Default::default(),
            completed: Default::default(),
'''),
(F, '''        loop {
            match pin!(&mut self.outbound).poll_reserve(context) {
                Poll::Ready(Ok(())) => {
                    // ready to send
                }
                Poll::Ready(Err(_)) => {
                    log::debug!("outbound connection is closed");
                    return Some(Poll::Ready(Err(crate::Error::ConnectionIsClosed)));
                }
                Poll::Pending => {
                    log::debug!("no room in outbound connection");
                    break;
                }
            }

            match pin!(&mut self.outstanding_unary_rpcs).poll_next(context) {''', '''        loop {
            let room = match pin!(&mut self.outbound).poll_reserve(context) {
                Poll::Ready(Ok(())) => true,
                Poll::Ready(Err(_)) => {
                    log::debug!("outbound connection is closed");
                    return Some(Poll::Ready(Err(crate::Error::ConnectionIsClosed)));
                }
                Poll::Pending => {
                    log::debug!("no room in outbound connection");
                    false
                }
            };
            if room {
                if let Some(response) = self.completed.pop_front() {
                    if let Err(_e) = self.outbound.send_item(response) {
                        log::debug!("outbound connection is closed");
                        return Some(Poll::Ready(Err(crate::Error::ConnectionIsClosed)));
                    }
                    continue;
                }
            }

            match pin!(&mut self.outstanding_unary_rpcs).poll_next(context) {'''),
(F, '''                            self.aborts.remove(&id);
                            if let Err(_e) = self.outbound.send_item(response) {''', '''                            self.aborts.remove(&id);
                            if !room {
                                // release what the rpc holds, its response can wait
                                self.completed.push_back(response);
                                continue;
                            }
                            if let Err(_e) = self.outbound.send_item(response) {'''),
(F, '''                                    if let Some(abort) = abort {
                                        if let Err(_e) = self.outbound.send_item(
                                            <TConnectionServer::Response as Message>::ended(id),
                                        ) {
                                            log::debug!("outbound connection is closed");
                                            return Some(Poll::Ready(Err(
                                                crate::Error::ConnectionIsClosed,
                                            )));
                                        }

                                        abort''', '''                                    if let Some(abort) = abort {
                                        self.completed.push_back(
                                            <TConnectionServer::Response as Message>::ended(id),
                                        );
                                        abort''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::FutureExt;
use protosocket_rpc::server::RpcKind;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use tokio::io::AsyncWriteExt;
fn main() {
    one_thread(async {
        let done = Arc::new(AtomicUsize::new(0));
        let d = done.clone();
        let a = rpc::serve(8, move |q| {
            let d = d.clone();
            RpcKind::Unary(async move { d.fetch_add(1, Ordering::SeqCst); m(q.id, 20_000) }.boxed())
        }).await;
        let mut s = tokio::net::TcpStream::connect(a).await.unwrap();
        for i in 0..5000 {
            s.write_all(&m(i, 0).wire()).await.unwrap();
        }
        tokio::time::sleep(std::time::Duration::from_secs(2)).await;
        let n = done.load(Ordering::SeqCst);
        // the kernel takes some megabytes
        check(n < 2000, &format!("{n} responses are waiting for a client that does not read"));
    });
}
'''
