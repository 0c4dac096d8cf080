PROPERTY = "C16"
NEEDS = "a streaming rpc that has nothing to send for a while"
BREAKS = "The server's rpc task wakes itself as long as a stream is open: it spins while the stream is idle."
F = "protosocket-rpc/src/server/connection_server.rs"
EDITS = [(F, '''        if let Some(early_out) = self.poll_advance_streaming_rpcs(context) {
            return early_out;
        }

        Poll::Pending
    }
}

impl<TConnectionServer> RpcConnectionServer''', '''        if let Some(early_out) = self.as_mut().poll_advance_streaming_rpcs(context) {
            return early_out;
        }

        if !self.outstanding_streaming_rpcs.is_empty() {
            // there will be more to send
            context.waker().wake_by_ref();
        }
        Poll::Pending
    }
}

impl<TConnectionServer> RpcConnectionServer''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::StreamExt;
use protosocket_rpc::server::RpcKind;
fn cpu() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap();
    let f: Vec<&str> = s.rsplit(')').next().unwrap().split_whitespace().collect();
    (f[11].parse::<f64>().unwrap() + f[12].parse::<f64>().unwrap()) / 100.0
}
fn main() {
    one_thread(async {
        let a = rpc::serve(64, |_| RpcKind::Streaming(futures::stream::pending().boxed())).await;
        let c = rpc::client(a, 16).await;
        let _s = c.send_streaming(m(1, 2)).await.unwrap();
        tokio::time::sleep(std::time::Duration::from_millis(200)).await;
        let t = cpu();
        tokio::time::sleep(std::time::Duration::from_secs(2)).await;
        let used = cpu() - t;
        check(used < 0.5, &format!("{used} s of cpu time for an idle stream"));
    });
}
'''
