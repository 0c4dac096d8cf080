PROPERTY = "C15"
NEEDS = "many streaming calls that are dropped before their end"
BREAKS = "The client's registry keeps the entry of a dropped streaming call until another item for it arrives, and the server was told to send none."
F = "protosocket-rpc/src/client/reactor/completion_registry.rs"
EDITS = [(F, '''                    log::debug!("{command_id} command done");
                    self.in_flight.remove(&command_id);
''', '''                    log::debug!("{command_id} command done");
                    if let Some(Completion::Unary(_)) = self.in_flight.get(&command_id) {
                        self.in_flight.remove(&command_id);
                    }
''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::StreamExt;
use protosocket_rpc::server::RpcKind;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
static HELD: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        HELD.fetch_add(l.size() as isize, Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        HELD.fetch_sub(l.size() as isize, Ordering::SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOCATOR: A = A;
fn main() {
    one_thread(async {
        let a = rpc::serve(64, |_| RpcKind::Streaming(futures::stream::pending().boxed())).await;
        let c = rpc::client(a, 64).await;
        let mut id = 0;
        let mut held = Vec::new();
        for _ in 0..4 {
            for _ in 0..3000 {
                id += 1;
                let call = c.send_streaming(m(id, 1)).await.unwrap();
                for _ in 0..3 {
                    tokio::task::yield_now().await;
                }
                drop(call);
            }
            tokio::time::sleep(std::time::Duration::from_millis(300)).await;
            held.push(HELD.load(Ordering::SeqCst));
        }
        check(held[3] - held[1] < 300_000, &format!("memory held grows with the number of dropped streams: {held:?}"));
    });
}
'''
