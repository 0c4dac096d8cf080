PROPERTY = "C15"
NEEDS = "many unary calls with different ids on one connection"
BREAKS = "The server keeps the abort handle of every unary rpc that completed."
F = "protosocket-rpc/src/server/connection_server.rs"
EDITS = [(F, '''                        Some((id, AbortableState::Ready(Ok(response)))) => {
                            self.aborts.remove(&id);
''', '''                        Some((id, AbortableState::Ready(Ok(response)))) => {
                            log::debug!("{id} unary rpc response");
''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::FutureExt;
use protosocket_rpc::server::RpcKind;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
struct Counting;
static BYTES: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BYTES.fetch_add(l.size() as isize, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        BYTES.fetch_sub(l.size() as isize, Ordering::Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;
fn main() {
    one_thread(async {
        let a = rpc::serve(64, |m| RpcKind::Unary(async move { m }.boxed())).await;
        let c = rpc::client(a, 16).await;
        let mut held = Vec::new();
        for round in 0..3u64 {
            for i in 0..3000 {
                c.send_unary(m(round * 3000 + i, 1)).await.unwrap().await.unwrap();
            }
            held.push(BYTES.load(Ordering::Relaxed));
        }
        check(held[2] - held[0] < 100_000, &format!("held {held:?}"));
    });
}
'''
