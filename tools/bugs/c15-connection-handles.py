PROPERTY = "C15"
NEEDS = "many connections over the life of one server"
BREAKS = "The server keeps a handle of every connection it ever accepted, which keeps the memory of its task."
F = "protosocket-rpc/src/server/socket_server.rs"
EDITS = [(F, '''    max_queued_outbound_messages: usize,
}
''', '''    max_queued_outbound_messages: usize,
    connections: std::sync::Mutex<Vec<tokio::task::AbortHandle>>,
}
'''),
(F, '''            max_queued_outbound_messages: 128,
''', '''            max_queued_outbound_messages: 128,
            connections: Default::default(),
'''),
(F, '''                        tokio::spawn(connection);
''', '''                        let task = tokio::spawn(connection).abort_handle();
                        if let Ok(mut connections) = self.connections.lock() {
                            connections.push(task);
                        }
'''),
(F, '''impl<TSocketService> Future for''', '''impl<TSocketService> Drop for SocketRpcServer<TSocketService>
where
    TSocketService: SocketService,
{
    fn drop(&mut self) {
        if let Ok(mut connections) = self.connections.lock() {
            let open = connections.drain(..).filter(|c| !c.is_finished()).count();
            log::debug!("server dropped with {open} open connections");
        }
    }
}

impl<TSocketService> Future for''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::FutureExt;
use protosocket_rpc::server::RpcKind;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
struct Counting;
static BYTES: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BYTES.fetch_add(l.size() as isize, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        BYTES.fetch_sub(l.size() as isize, Ordering::Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;
fn main() {
    one_thread(async {
        let a = rpc::serve(64, |m| RpcKind::Unary(async move { m }.boxed())).await;
        let mut held = Vec::new();
        for _ in 0..3 {
            for _ in 0..300 {
                let c = rpc::client(a, 16).await;
                c.send_unary(m(1, 1)).await.unwrap().await.unwrap();
            }
            tokio::time::sleep(std::time::Duration::from_millis(300)).await;
            held.push(BYTES.load(Ordering::Relaxed));
        }
        check(held[2] - held[0] < 60_000, &format!("held {held:?}"));
    });
}
'''
