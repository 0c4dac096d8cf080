PROPERTY = "C15"
NEEDS = "many writes that end inside a message"
BREAKS = "Every partial write puts a buffer into the pool in addition to the one that will come back when the message is written: the pool grows with the number of partial writes."
F = "protosocket-connection/src/connection.rs"
EDITS = [(F, '''                    let replacement = front[written..].to_vec();
                    self.send_buffer.push_front(replacement);
                    break;''', '''                    let replacement = front[written..].to_vec();
                    self.send_buffer.push_front(replacement);
                    // Reuse the buffer!
                    front.clear();
                    self.serializer_buffers.push(front);
                    break;''')]
DEMO = r'''
mod kit;
use kit::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
use tokio::io::AsyncReadExt;
struct Counting;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, Ordering::Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;
fn main() {
    one_thread(async {
        let (a, mut b) = pair().await;
        let (tx, c) = connection(a, 16 << 20, 2, Got::default());
        tokio::spawn(c);
        let mut buffer = vec![0; 300_000];
        let mut sizes = Vec::new();
        for _round in 0..4 {
            let t = tx.clone();
            let sender = tokio::spawn(async move {
                for i in 0..10 {
                    t.send(m(i, 8_000_000)).await.unwrap();
                }
            });
            let mut left = 10 * 8_000_013usize;
            while left > 0 {
                let n = left.min(buffer.len());
                b.read_exact(&mut buffer[..n]).await.unwrap();
                left -= n;
            }
            sender.await.unwrap();
            tokio::time::sleep(std::time::Duration::from_millis(50)).await;
            sizes.push(LIVE.load(Ordering::Relaxed));
        }
        check(sizes[3] - sizes[0] < 50_000_000, &format!("memory after each of four equal rounds: {sizes:?}"));
    });
}
'''
