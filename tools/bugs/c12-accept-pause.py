PROPERTY = "C12"
NEEDS = "accept failing (too many open files) while nothing else wakes the server"
BREAKS = "After a failed accept the server waits without being registered for the next connection: it never accepts again."
F = "protosocket-rpc/src/server/socket_server.rs"
EDITS = [(F, '''                        log::error!("failed to accept connection: {e:?}");
                        continue;''', '''                        // don't spin when the process is out of file descriptors
                        log::error!("failed to accept connection: {e:?}");
                        Poll::Pending''')]
DEMO = r'''
mod kit;
use kit::*;
use futures::FutureExt;
use protosocket_rpc::server::RpcKind;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
fn main() {
    one_thread(async {
        let a = rpc::serve(64, |q| RpcKind::Unary(async move { q }.boxed())).await;
        tokio::time::sleep(std::time::Duration::from_millis(50)).await;
        // sockets that exist before the file descriptors run out
        let mk = || unsafe { libc::socket(libc::AF_INET, libc::SOCK_STREAM, 0) };
        let (one, two) = (mk(), mk());
        let connect = |fd: i32| unsafe {
            let sa = libc::sockaddr_in {
                sin_family: libc::AF_INET as u16,
                sin_port: a.port().to_be(),
                sin_addr: libc::in_addr { s_addr: u32::from_ne_bytes([127, 0, 0, 1]) },
                sin_zero: [0; 8],
            };
            libc::connect(fd, &sa as *const _ as *const libc::sockaddr, std::mem::size_of_val(&sa) as u32)
        };
        unsafe {
            let l = libc::rlimit { rlim_cur: 64, rlim_max: 64 };
            libc::setrlimit(libc::RLIMIT_NOFILE, &l);
        }
        let mut fill = Vec::new();
        while let Ok(f) = std::fs::File::open("/dev/null") {
            fill.push(f);
        }
        check(connect(one) == 0, "connect");
        tokio::time::sleep(std::time::Duration::from_millis(300)).await;
        drop(fill);
        tokio::time::sleep(std::time::Duration::from_millis(100)).await;
        check(connect(two) == 0, "connect");
        let done = tokio::task::spawn_blocking(move || {
            let mut s = unsafe { std::net::TcpStream::from_raw_fd(two) };
            s.set_read_timeout(Some(std::time::Duration::from_secs(3))).unwrap();
            s.write_all(&m(7, 3).wire()).unwrap();
            let mut b = vec![0; m(7, 3).wire().len()];
            s.read_exact(&mut b).is_ok()
        })
        .await
        .unwrap();
        check(done, "the server does not serve a new connection");
    });
}
'''
