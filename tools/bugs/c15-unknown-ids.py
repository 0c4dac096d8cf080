PROPERTY = "C15"
NEEDS = "many requests that the service does not know, on one long-lived connection"
BREAKS = "The server keeps the id of every request that its service did not know, for as long as the connection lives."
F = "protosocket-rpc/src/server/connection_server.rs"
EDITS = [(F, '''    aborts: HashMap<u64, IdentifiableAbortHandle>,
}
''', '''    aborts: HashMap<u64, IdentifiableAbortHandle>,
    skipped: std::collections::HashSet<u64>,
}
'''), (F, '''            aborts: Default::default(),
        }
''', '''            aborts: Default::default(),
            skipped: Default::default(),
        }
'''), (F, '''                            log::debug!("skipping message {message_id}");
''', '''                            if self.skipped.insert(message_id) {
                                log::debug!("skipping message {message_id}");
                            }
''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::FutureExt;
use protosocket_rpc::server::RpcKind;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    one_thread(async {
        let a = rpc::serve(64, |q| if q.body.is_empty() { RpcKind::Unknown } else { RpcKind::Unary(async move { q }.boxed()) }).await;
        let c = rpc::client(a, 64).await;
        let mut held = Vec::new();
        let mut id = 0;
        for _ in 0..4 {
            for _ in 0..20_000 {
                id += 1;
                drop(c.send_unary(m(id, 0)).await.unwrap());
            }
            id += 1;
            let _ = c.send_unary(m(id, 1)).await.unwrap().await;
            tokio::time::sleep(std::time::Duration::from_millis(200)).await;
            id += 1;
            let _ = c.send_unary(m(id, 1)).await.unwrap().await;
            held.push(LIVE.load(Ordering::SeqCst));
        }
        check(held[3] - held[1] < 200_000, &format!("held {held:?}"));
    });
}
'''
