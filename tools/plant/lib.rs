//! Helpers of the demonstrations: a raw TChannel peer on blocking sockets, closures as handlers.
#![allow(dead_code)]
use bytes::Bytes;
use std::future::Future;
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::pin::Pin;
use std::time::Duration;
pub use tchannel_rs::errors::*;
pub use tchannel_rs::handler::*;
pub use tchannel_rs::messages::*;
pub use tchannel_rs::*;

pub const INIT_REQ: u8 = 1;
pub const INIT_RES: u8 = 2;
pub const CALL_REQ: u8 = 3;
pub const CALL_RES: u8 = 4;
pub const CALL_REQ_CONT: u8 = 0x13;
pub const CALL_RES_CONT: u8 = 0x14;
pub const PING_REQ: u8 = 0xd0;
pub const PING_RES: u8 = 0xd1;
pub const ERROR: u8 = 0xff;

/// Ends the process if it takes too long.
pub fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(secs));
        eprintln!("FAILED: took too long");
        std::process::exit(7);
    });
}

pub fn fail(msg: &str) -> ! {
    eprintln!("FAILED: {}", msg);
    std::process::exit(1)
}

pub fn free_addr() -> SocketAddr {
    TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap()
}

pub fn config(addr: SocketAddr, connections: u32, buffer: usize, tasks: usize) -> Config {
    ConfigBuilder::default()
        .max_connections(connections)
        .lifetime(Some(Duration::from_secs(60)))
        .test_connection(false)
        .frame_buffer_size(buffer)
        .server_address(addr)
        .server_tasks(tasks)
        .build()
        .unwrap()
}

pub fn config_tested(addr: SocketAddr) -> Config {
    ConfigBuilder::default()
        .max_connections(1)
        .lifetime(Some(Duration::from_secs(60)))
        .test_connection(true)
        .frame_buffer_size(100)
        .server_address(addr)
        .server_tasks(4)
        .build()
        .unwrap()
}

pub fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread()
        .worker_threads(4)
        .enable_all()
        .build()
        .unwrap()
}

pub fn msg(endpoint: &str, header: &str, body: impl Into<Bytes>) -> RawMessage {
    RawMessage::new(endpoint.to_string(), header.to_string(), body.into())
}

/// Waits until something listens on the address.
pub fn wait_listening(addr: SocketAddr) {
    for _ in 0..500 {
        if TcpStream::connect(addr).is_ok() {
            return;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    fail("nothing listens");
}

type SyncFn = dyn FnMut(RawMessage) -> HandlerResult<RawMessage> + Send + Sync;
pub struct Sync_(pub Box<SyncFn>);
pub fn sync_handler(
    f: impl FnMut(RawMessage) -> HandlerResult<RawMessage> + Send + Sync + 'static,
) -> Sync_ {
    Sync_(Box::new(f))
}
impl std::fmt::Debug for Sync_ {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("handler")
    }
}
impl RequestHandler for Sync_ {
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(&mut self, request: RawMessage) -> HandlerResult<RawMessage> {
        (self.0)(request)
    }
}

type Fut = Pin<Box<dyn Future<Output = HandlerResult<RawMessage>> + Send>>;
pub struct Async_(pub Box<dyn FnMut(RawMessage) -> Fut + Send + Sync>);
pub fn async_handler<F: Future<Output = HandlerResult<RawMessage>> + Send + 'static>(
    mut f: impl FnMut(RawMessage) -> F + Send + Sync + 'static,
) -> Async_ {
    Async_(Box::new(move |m| Box::pin(f(m))))
}
impl std::fmt::Debug for Async_ {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("handler")
    }
}
impl RequestHandlerAsync for Async_ {
    type REQ = RawMessage;
    type RES = RawMessage;
    fn handle(
        &mut self,
        request: RawMessage,
    ) -> Pin<Box<dyn Future<Output = HandlerResult<RawMessage>> + Send + '_>> {
        (self.0)(request)
    }
}

pub struct Peer(pub TcpStream);

impl Peer {
    /// Connects, without a handshake.
    pub fn connect(addr: SocketAddr) -> Peer {
        for _ in 0..500 {
            if let Ok(s) = TcpStream::connect(addr) {
                return Peer::new(s);
            }
            std::thread::sleep(Duration::from_millis(10));
        }
        fail("cannot connect")
    }
    pub fn new(s: TcpStream) -> Peer {
        s.set_nodelay(true).unwrap();
        s.set_read_timeout(Some(Duration::from_secs(5))).unwrap();
        Peer(s)
    }
    /// Connects and does the handshake of a client.
    pub fn client(addr: SocketAddr) -> Peer {
        let mut p = Peer::connect(addr);
        p.send(INIT_REQ, 1, &[0, 2, 0, 0]);
        match p.recv() {
            Some((INIT_RES, _, _)) => p,
            other => fail(&format!("no init response: {:?}", other)),
        }
    }
    /// Does the handshake of a server.
    pub fn server(s: TcpStream) -> Peer {
        let mut p = Peer::new(s);
        match p.recv() {
            Some((INIT_REQ, id, _)) => p.send(INIT_RES, id, &[0, 2, 0, 0]),
            other => fail(&format!("no init request: {:?}", other)),
        }
        p
    }
    pub fn send(&mut self, typ: u8, id: u32, payload: &[u8]) {
        let _ = self.0.write_all(&frame(typ, id, payload));
    }
    /// None: closed, or nothing came for 5 s.
    pub fn recv(&mut self) -> Option<(u8, u32, Vec<u8>)> {
        let mut head = [0u8; 16];
        self.0.read_exact(&mut head).ok()?;
        let size = u16::from_be_bytes([head[0], head[1]]) as usize;
        let mut payload = vec![0; size - 16];
        self.0.read_exact(&mut payload).ok()?;
        let id = u32::from_be_bytes([head[4], head[5], head[6], head[7]]);
        Some((head[2], id, payload))
    }
}

pub fn frame(typ: u8, id: u32, payload: &[u8]) -> Vec<u8> {
    let mut f = ((payload.len() + 16) as u16).to_be_bytes().to_vec();
    f.extend([typ, 0]);
    f.extend(id.to_be_bytes());
    f.extend([0; 8]);
    f.extend(payload);
    f
}

fn args_bytes(args: &[&[u8]]) -> Vec<u8> {
    let mut p = vec![0];
    for a in args {
        p.extend((a.len() as u16).to_be_bytes());
        p.extend(*a);
    }
    p
}

/// flags: 1 if more fragments follow.
pub fn call_req(flags: u8, service: &str, args: &[&[u8]]) -> Vec<u8> {
    let mut p = vec![flags, 0, 0, 0x27, 0x10];
    p.extend([0; 25]);
    p.push(service.len() as u8);
    p.extend(service.bytes());
    p.extend([1, 2, b'a', b's', 3, b'r', b'a', b'w']);
    p.extend(args_bytes(args));
    p
}

pub fn call_res(flags: u8, code: u8, args: &[&[u8]]) -> Vec<u8> {
    let mut p = vec![flags, code];
    p.extend([0; 25]);
    p.extend([1, 2, b'a', b's', 3, b'r', b'a', b'w']);
    p.extend(args_bytes(args));
    p
}

pub fn cont(flags: u8, args: &[&[u8]]) -> Vec<u8> {
    let mut p = vec![flags];
    p.extend(args_bytes(args));
    p
}

pub fn error_payload(code: u8, message: &str) -> Vec<u8> {
    let mut p = vec![code];
    p.extend([0; 25]);
    p.extend((message.len() as u16).to_be_bytes());
    p.extend(message.bytes());
    p
}

/// Flags, code, and args of a call response.
pub fn parse_res(p: &[u8]) -> (u8, u8, Vec<Vec<u8>>) {
    let mut at = 27;
    let headers = p[at];
    at += 1;
    for _ in 0..headers * 2 {
        at += 1 + p[at] as usize;
    }
    (p[0], p[1], parse_args(&p[at..]))
}

/// Args of a call request.
pub fn parse_req(p: &[u8]) -> (u8, Vec<Vec<u8>>) {
    let mut at = 30;
    at += 1 + p[at] as usize;
    let headers = p[at];
    at += 1;
    for _ in 0..headers * 2 {
        at += 1 + p[at] as usize;
    }
    (p[0], parse_args(&p[at..]))
}

pub fn parse_args(p: &[u8]) -> Vec<Vec<u8>> {
    let mut at = 1;
    let mut args = vec![];
    while at < p.len() {
        let len = u16::from_be_bytes([p[at], p[at + 1]]) as usize;
        args.push(p[at + 2..at + 2 + len].to_vec());
        at += 2 + len;
    }
    args
}
