mod kit;
use kit::*;
fn main() {
    one_thread(async {
        let (a, b) = pair().await;
        let g = Got::default();
        let (tx, c) = connection(a, 4096, 8, Got::default());
        let (_ty, d) = connection(b, 4096, 8, g.clone());
        tokio::spawn(c);
        tokio::spawn(d);
        for i in 0..100 {
            tx.send(m(i, 50)).await.unwrap();
        }
        check(until(5, || g.len() == 100).await, "delivery");
    });
}
