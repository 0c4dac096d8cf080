PROPERTY = "C12"
NEEDS = "accept failing more than a thousand times while the process is out of file descriptors"
BREAKS = "The rpc server counts failed accepts and gives up the listener after 1000 of them, however long ago: a spell without file descriptors ends it."
F = "protosocket-rpc/src/server/socket_server.rs"
EDITS = [(F, '''    max_queued_outbound_messages: usize,
}
''', '''    max_queued_outbound_messages: usize,
    accept_failures: std::sync::atomic::AtomicUsize,
}
'''), (F, '''            max_queued_outbound_messages: 128,
''', '''            max_queued_outbound_messages: 128,
            accept_failures: Default::default(),
'''), (F, '''                        log::error!("failed to accept connection: {e:?}");
                        continue;''', '''                        log::error!("failed to accept connection: {e:?}");
                        let failures = self
                            .accept_failures
                            .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        if 1000 < failures {
                            // this listener does not recover
                            return Poll::Ready(Err(e));
                        }
                        continue;''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::FutureExt;
use protosocket_rpc::server::RpcKind;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
fn main() {
    threads(2, async {
        let a = rpc::serve(64, |q| RpcKind::Unary(async move { q }.boxed())).await;
        tokio::time::sleep(std::time::Duration::from_millis(50)).await;
        let mk = || unsafe { libc::socket(libc::AF_INET, libc::SOCK_STREAM, 0) };
        let (one, two) = (mk(), mk());
        let connect = move |fd: i32| unsafe {
            let sa = libc::sockaddr_in {
                sin_family: libc::AF_INET as u16,
                sin_port: a.port().to_be(),
                sin_addr: libc::in_addr { s_addr: u32::from_ne_bytes([127, 0, 0, 1]) },
                sin_zero: [0; 8],
            };
            libc::connect(fd, &sa as *const _ as *const libc::sockaddr, std::mem::size_of_val(&sa) as u32)
        };
        unsafe {
            let l = libc::rlimit { rlim_cur: 64, rlim_max: 64 };
            libc::setrlimit(libc::RLIMIT_NOFILE, &l);
        }
        let done = std::thread::spawn(move || {
            let mut fill = Vec::new();
            while let Ok(f) = std::fs::File::open("/dev/null") {
                fill.push(f);
            }
            assert!(connect(one) == 0);
            std::thread::sleep(std::time::Duration::from_millis(1000));
            drop(fill);
            std::thread::sleep(std::time::Duration::from_millis(100));
            if connect(two) != 0 {
                return false;
            }
            let mut s = unsafe { std::net::TcpStream::from_raw_fd(two) };
            s.set_read_timeout(Some(std::time::Duration::from_secs(3))).unwrap();
            if s.write_all(&m(7, 3).wire()).is_err() {
                return false;
            }
            let mut b = vec![0; m(7, 3).wire().len()];
            s.read_exact(&mut b).is_ok()
        })
        .join()
        .unwrap();
        check(done, "the server does not serve a new connection");
    });
}
'''
