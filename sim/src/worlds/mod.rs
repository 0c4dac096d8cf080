pub mod conn;
pub mod raw;
pub mod rawclient;
pub mod rawserver;
pub mod rpc;
pub mod server;
pub mod soak;

use crate::runner::World;

pub const ALL: &[World] = &[
    World {
        name: "conn",
        f: |p| Box::pin(conn::world(p)),
        about: "two real Connections over a simulated socket pair, several sending tasks on each side",
    },
    World {
        name: "raw",
        f: |p| Box::pin(raw::world(p)),
        about: "one real Connection against a scripted peer that reads and writes raw bytes",
    },
    World {
        name: "rpc",
        f: |p| Box::pin(rpc::world(p)),
        about: "a real SocketRpcServer and real RpcClients, each on its own node",
    },
    World {
        name: "rawclient",
        f: |p| Box::pin(rawclient::world(p)),
        about: "a real SocketRpcServer against scripted clients that speak raw bytes",
    },
    World {
        name: "rawserver",
        f: |p| Box::pin(rawserver::world(p)),
        about: "a real RpcClient against a scripted server that speaks raw bytes",
    },
    World {
        name: "server",
        f: |p| Box::pin(server::world(p)),
        about: "a real ProtosocketServer and connections of real ClientRegistries, each on its own node",
    },
    World {
        name: "soak",
        f: |p| Box::pin(soak::world(p)),
        about: "real rpc clients and server, or two real Connections, over long histories; memory and polls are counted",
    },
];
